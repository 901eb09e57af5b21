"""Which harnesses decide which property, and within which bounds."""

BUDGET = {"quick": 720, "thorough": 3000}
QUERY_MS = {"quick": 20000, "thorough": 120000}
THREADS = 8

ASSUMPTIONS = [
    "the crate as compiled by rustc (stable) to LLVM IR with opt-level 2, overflow checks on, panic=abort, fat LTO, "
    "no vectorisation; later code generation is trusted",
    "the executor's model of memory: allocation never fails, pointers are 64 bit, little endian",
    "Z3's answers, and the executor's translation of IR to bit-vector terms (every simplification of a term is itself "
    "put to Z3; sampled paths and every counterexample are run natively)",
]

FAMS = "cv1 cv2 sysc util flex stream".split()


def ump(*kinds):
    return [f"{k}_{f}" for k in kinds for f in FAMS]


def byt(*kinds):
    return [f"{k}_{f}" for k in kinds for f in ("cv1", "sysc")]


PROPERTIES = {
    "P01": {
        "harnesses": {"fixed": ump("frame"), "bytes": byt("bframe")},
        "bounds": "every fixed size message type of the crate; every 32-bit content of its words (messages with more "
                  "than 11 fields: any two fields arbitrary, the rest one of two values), every field, every value of "
                  "the field's type; one setter call from an arbitrary legal message",
    },
    "P02": {
        "harnesses": {"fixed": ump("decode", "encode"), "bytes": byt("bdecode", "bencode")},
        "bounds": "as P01, against a table of the wire positions of every field",
    },
    "P06": {
        "harnesses": {"bytes": byt("convert")},
        "bounds": "every channel voice 1 and system common message, all contents, all groups, 0..=2 arbitrary units behind the "
                  "message in its buffer; targets: vectors, arrays of every size around the message's, a buffer of the user",
    },
    "P07": {
        "harnesses": {"sysex7": ["s7_to_ump", "s7_to_bytes"]},
        "bounds": "byte form: payloads of 0..=26 arbitrary bytes; UMP form: 1..=4 packets of any sizes and any content; "
                  "0..=2 arbitrary units behind the message; targets: growable vectors, arrays of 2, 3, 4 words and of 0, 2, "
                  "5, 9, 20 bytes, buffers of the user",
    },
    "P08": {
        "harnesses": {"sysex7": ["s7_vec", "s7_vec3", "s7_array4", "s7_array6", "s7_array7", "s7_bytes_vec",
                                 "s7_bytes_array", "s7_beyond", "s7_beyond_bytes", "s7_borrowed", "s7_own", "s7_long",
                                 "s7_bytes_own", "s7_bytes_long", "s7_bytes_array11", "s7_vec_deep@thorough",
                                 "s7_vec4_deep@thorough", "s7_array_deep@thorough", "s7_dirty_deep@thorough"]},
        "bounds": "one edit of an arbitrary message: 1..=2 packets of any sizes 0..=6 (3 packets of sizes 0, 1, 6), any "
                  "content; 0..=7 new bytes with any lawful size hint; every start index and every span up to 4 and to "
                  "the end; byte form 0..=9 bytes, 0..=9 new ones; vectors, arrays of 4, 6, 7 words, 7 and 11 bytes, "
                  "borrowed vectors and slices, vectors with other words behind the message, buffers of a "
                  "user's own whose length changes and whose new units are arbitrary; messages of 3..=4 packets (byte "
                  "form: up to 4 packets' worth), every start, spans around multiples of a packet, up to 25 new bytes; thorough: 3..=4 packets, up "
                  "to 13 new bytes, every start, every span up to 7",
    },
    "P09": {
        "harnesses": {"sysex8": ["s8_vec", "s8_vec3", "s8_array8", "s8_array13", "s8_beyond", "s8_borrowed", "s8_own", "s8_long",
                                 "s8_vec_deep@thorough", "s8_vec3_deep@thorough", "s8_array_deep@thorough",
                                 "s8_dirty_deep@thorough"]},
        "bounds": "one edit of an arbitrary message: 1..=2 packets of sizes 0, 1, 2, 12, 13 (3 packets of sizes 0, 1, "
                  "13), any content; 0..=14 new bytes with any lawful size hint; every start index and every span up to "
                  "2 and to the end; vectors, arrays of 8 and 13 words, borrowed vectors and slices, vectors with other "
                  "words behind the message, buffers of a user's own; messages of 3..=4 packets, every start, spans "
                  "around multiples of a packet, up to 53 new bytes; thorough: packets of all sizes, 3..=4 packets, up to "
                  "14 new bytes, every span up to 4",
    },
    "P10": {
        "harnesses": {"sysex7": ["s7_parse", "s7_bytes_parse", "s7_packet", "s7_parse_long",
                                 "s7_parse_deep@thorough"],
                      "sysex8": ["s8_parse", "s8_packet", "s8_parse_long", "s8_parse_deep@thorough"]},
        "bounds": "slices of 0..=7 (sysex7) and 0..=9 (sysex8) arbitrary words (thorough: 0..=9, 0..=13), 0..=12 arbitrary bytes; packets from "
                  "slices of 0..=3 and 0..=5 arbitrary words; slices of 2..=10 (sysex8: 2..=9) packets with any status, "
                  "group and stream id in each, legal and illegal sizes",
    },
    "P11": {
        "harnesses": {"sysex7": ["s7_iterate", "s7_bytes_iterate", "s7_packet"],
                      "sysex8": ["s8_iterate", "s8_packet", "s8_iterate_deep@thorough"]},
        "bounds": "sysex7 messages of 1..=4 packets of sizes 0, 1, 2, 6, sysex8 messages of 1..=2 (thorough: 3) packets "
                  "of sizes 0, 1, 2, 12, 13, byte form of 0..=14 bytes, single packets; any number of steps, then any jump (the whole range of the index type), count, last or "
                  "exhaustion; cloned iterators; 0..=3 words or bytes of something else behind the message",
    },
    "P12": {
        "harnesses": {"sysex7": ["s7_headers"], "sysex8": ["s8_headers"], "text": ["flex_vec", "names_vec", "flex_beside", "names_beside"],
                      "dispatch": ["disp_family", "disp_packets"], "anybytes": ["bytes_agree"]},
        "bounds": "system exclusive messages of 1..=6 packets of sizes 0, 1, full, any content, any old and new group "
                  "and stream id, in vectors and in arrays with other words behind the message (which stay); flex data text "
                  "and function block names of 1..=3 packets, text before or after the header, with other words behind; every message of one packet "
                  "through its family, in both forms; single packets",
    },
    "P13": {
        "harnesses": {"sysex7": ["s7_packets", "s7_packet", "s7_packets_iterate"],
                      "sysex8": ["s8_packets", "s8_packet", "s8_packets_iterate"],
                      "dispatch": ["disp_agree", "disp_packets"],
                      "text": ["flex_parse", "names_parse", "flex_long", "names_long"]},
        "bounds": "system exclusive messages of 1..=4 packets of any (sysex8: sizes 0, 1, 2, 12, 13) sizes and content, 0..=2 arbitrary words behind; text "
                  "messages of up to 9 packets; every message of one packet; the iterator after any number of steps and "
                  "any jump; packets from slices of 0..=5 arbitrary words",
    },
    "P14": {
        "harnesses": {"sysex7": ["s7_rebuffer", "s7_bytes_rebuffer", "s7_rebuffer_mut", "s7_bytes_rebuffer_mut"],
                      "sysex8": ["s8_rebuffer", "s8_rebuffer_mut"],
                      "dispatch": ["disp_family"], "anybytes": ["bytes_agree"],
                      "text": ["flex_arrays", "names_array9", "names_array12", "flex_rebuffer_mut", "names_rebuffer_mut"],
                      "ci": ["ci_frame", "ci_fresh"]},
        "bounds": "system exclusive messages of 1..=6 (sysex8: 5) packets of sizes 0, 1, full; byte form of 0..=5 bytes; "
                  "0..=2 arbitrary words or bytes behind; text messages of 0..=2 packets; every other message, as its "
                  "own type, its family and any message; shared and mutable slices, vectors and arrays of several sizes",
    },
    "P20": {
        "harnesses": {"sysex7": ["s7_array4", "s7_array6", "s7_array7", "s7_dirty4", "s7_dirty7", "s7_bytes_array",
                                 "s7_to_ump", "s7_to_bytes", "s7_borrowed", "s7_own", "s7_bytes_own"],
                      "sysex8": ["s8_array8", "s8_array13", "s8_dirty8", "s8_dirty11", "s8_borrowed", "s8_own"],
                      "text": ["flex_arrays", "flex_borrowed", "names_array9", "names_array12", "names_borrowed",
                               "flex_own", "names_own"],
                      "ci": ["ci_fresh"]},
        "bounds": "as P08 and P09, in arrays of 4, 6, 7 words (sysex7), 8, 11, 13 words (sysex8), 7 bytes, and in new "
                  "messages built in arrays and slices of arbitrary previous content; text of 0..=3 packets in arrays of "
                  "9 and 12 words and slices of 0..=9 words; discovery queries; buffers of a user's own with room for "
                  "0..=N units whose length changes",
    },
    "P19": {
        "harnesses": {"fixed": ump("fresh"), "bytes": byt("bfresh"), "sysex7": ["s7_borrowed", "s7_own", "s7_bytes_own"],
                      "sysex8": ["s8_borrowed", "s8_own"],
                      "text": ["flex_borrowed", "names_borrowed", "flex_own", "names_own"], "ci": ["ci_fresh"]},
        "bounds": "every message type; buffers: arrays and slices shorter than, as long as and longer than "
                  "the message with arbitrary initial content, and growable vectors, owned and borrowed, and buffers of a user's own; messages of "
                  "variable size: also the first payload or text set in such a buffer, up to two packets",
    },
    "P03": {
        "harnesses": {"fixed": ump("decode"), "sysex7": ["s7_parse"], "sysex8": ["s8_parse"],
                      "text": ["flex_parse", "names_parse"],
                      "dispatch": ["disp_agree", "disp_unassigned", "disp_sysex", "disp_packets"]},
        "bounds": "slices of 0..=n+1 arbitrary words for messages of n words; of 0..=5 for unassigned headers; of 0..=7 "
                  "(sysex7), 0..=9 (sysex8) and 0..=9 (text; two bytes of text arbitrary, the others letters) words",
    },
    "P04": {
        "harnesses": {"bytes": byt("bdecode"), "anybytes": ["bytes_agree", "bytes_any"], "sysex7": ["s7_bytes_parse"],
                      "ci": ["ci_parse"]},
        "bounds": "slices of 0..=6 (sysex7: 0..=12) arbitrary bytes; discovery queries: of 0..=35 arbitrary bytes",
    },
    "P05": {
        "harnesses": {"dispatch": ["disp_agree", "disp_family", "disp_unassigned", "disp_foreign", "disp_sysex"],
                      "anybytes": ["bytes_agree", "bytes_any"]},
        "bounds": "every message type of the crate with arbitrary content in slices of 0..=n+4 words (bytes: 0..=n+2); "
                  "every header that no type has; system exclusive messages of 0..=8 arbitrary words",
    },
    "P15": {
        "harnesses": {"text": ["flex_vec", "flex_parse", "flex_arrays", "flex_borrowed", "flex_array9_lyricist",
                               "flex_array12_lyrics", "flex_long", "flex_own", "flex_beside", "flex_wide", "flex_array9@thorough", "flex_array12@thorough"]},
        "bounds": "all 18 flex data text types; text of 0, 1, 2, 11, 12, 13, 24 and 25 bytes of any characters of one byte "
                  "and one of two, three or four bytes (also across packets), set over a previous text of such a length; every group and "
                  "address, set before or after; parsing: 0..=9 words, any headers, two arbitrary bytes of text; "
                  "text of up to 9 packets; other words behind the message; buffers of a user's own",
        "outside": "NUL characters within a text",
    },
    "P16": {
        "harnesses": {"text": ["names_vec", "names_parse", "names_array9", "names_array12", "names_borrowed", "names_long",
                               "names_own", "names_beside", "names_wide"]},
        "bounds": "endpoint name, product instance id and function block name; text of 0, 1, 2, n-1, n, n+1, 2n and 2n+1 "
                  "bytes for packets of n bytes, otherwise as P15",
        "outside": "NUL characters within a text",
    },
    "P17": {
        "harnesses": {"dispatch": ["disp_value", "disp_print", "disp_sysex_value"], "anybytes": ["bytes_value", "s7_bytes_value"],
                      "ci": ["ci_value"]},
        "bounds": "every message type of one packet, system exclusive messages of 1..=2 packets (0..=3 bytes), queries: "
                  "two messages which differ in one arbitrary word (byte) at any position, as message type, family "
                  "and any message; clones of vectors and copies of arrays with any group and channel set afterwards; "
                  "what is printed for messages with one arbitrary word at any position",
        "outside": "comparing messages whose buffers hold more than the message; width and alternate formatting flags",
    },
    "P18": {
        "harnesses": {"ci": ["ci_parse", "ci_frame", "ci_fresh"]},
        "bounds": "discovery queries of both versions: slices of up to 35 arbitrary bytes; every field, every value set in "
                  "an arbitrary query of its least size or one byte more, with 0..=2 bytes behind; new queries in "
                  "buffers of 0..=34 arbitrary bytes",
    },
    "P21": {
        "harnesses": {"dispatch": ["disp_trailing"], "text": ["flex_parse", "names_parse", "flex_beside", "names_beside"],
                      "sysex7": ["s7_iterate", "s7_packets", "s7_rebuffer", "s7_borrowed", "s7_packets_iterate"],
                      "sysex8": ["s8_iterate", "s8_packets", "s8_rebuffer", "s8_borrowed", "s8_packets_iterate"],
                      "ci": ["ci_frame"]},
        "bounds": "1..=9 arbitrary words behind every message of one packet (behind stream and flex data messages not "
                  "one of the same kind); 0..=3 words behind system exclusive messages of 1..=4 packets, up to 7 behind "
                  "text messages",
    },
}
