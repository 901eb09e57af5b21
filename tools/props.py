#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file or plan.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan  # noqa: E402

SRC = "midi2/src/"


def where(f):
    """files of a module of midi2"""
    out = []
    for c in (SRC + f, SRC + f + ".rs", f):
        if os.path.exists(os.path.join("/repo", c)):
            out.append(c)
    assert out, f
    return out


def P(id, title, statement, over, text, why, files, mechanism, observe=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [x for f in files for x in where(f)],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    }


FIXED = ["channel_voice1", "channel_voice2", "system_common", "utility", "flex_data", "ump_stream"]
PROPS = [
    P("P01", "A setter changes its own field and nothing else",
      "For every fixed size message type, in UMP and in byte stream form, setting a field of any valid message to any "
      "value of the field's type makes the getter return that value, leaves every other field and every bit outside "
      "the field as it was, keeps the message's size, and leaves the message valid. Setting never panics.",
      ["inputs"], "every message type, every content of the message, every field, every value",
      "Each setter test starts from a new message and sets one sample value; the tests do not vary the previous "
      "content (stale bits) or look at the neighbouring fields.",
      FIXED + ["detail/schema.rs", "detail/common_properties.rs", "detail/common_err_strings.rs", "detail/bit_ops.rs"],
      [("bit field property read/write through a schema mask", "midi2/src/detail/schema.rs"),
       ("generated accessors", "midi2_proc/src/generate_message.rs")],
      ["the getters and the words or bytes of the message"]),
    P("P02", "Every field sits where the MIDI specification puts it",
      "For every fixed size message type, in UMP and in byte stream form, a getter reads exactly the bits the MIDI 1.0 "
      "and MIDI 2.0 specifications assign to the field, and building a message with the setters in any of two orders "
      "gives exactly the specified words. A message whose header and fields are well formed is accepted when parsed; "
      "one with a field that the type cannot represent is rejected.",
      ["inputs"], "every message type, every value of every field (messages of many fields: every pair)",
      "The tests pin a few sample words per message; an error confined to other values (a mask one bit short, two "
      "fields swapped only in high bits) passes them.",
      FIXED + ["detail/schema.rs", "detail/common_properties.rs"],
      [("schema masks", "the #[property] attributes of each message")],
      ["data() and the getters"]),
    P("P06", "Channel voice and system messages convert between bytes and UMP faithfully",
      "Converting any valid channel voice 1 or system common message from byte stream form to UMP and back gives the "
      "same bytes, and from UMP to bytes and back the same words apart from the group, whether through the message "
      "type or through its family. All fields keep their values in both directions.",
      ["inputs"], "every message of the two families, every field value, every group",
      "Conversion tests exist for one or two sample messages.",
      ["channel_voice1", "system_common", "detail/schema.rs", "traits.rs"],
      [("TryFromBytes/TryFromUmp", "midi2_proc/src/generate_message.rs")],
      ["from_bytes, from_ump and the try_ forms"]),
    P("P07", "System exclusive messages convert between bytes and UMP faithfully",
      "Converting a sysex7 message from byte stream form (F0 payload F7) to UMP gives the packets the specification "
      "prescribes (six bytes each but the last, statuses complete or start/continue/end, group 0) and the same payload; "
      "converting a UMP message of any packetisation to bytes gives F0, the payload, F7. Going there and back is the "
      "identity. The fallible forms succeed exactly when the result fits the target and otherwise return an error.",
      ["inputs"], "every payload and packetisation within the bounds, every content of unused octets, every target size",
      "Tests convert a few fixed payloads; the boundaries are at every multiple of six and every buffer size.",
      ["sysex7", "detail/helpers.rs", "buffer.rs"],
      [("try_from_bytes/try_from_ump", "midi2/src/sysex7.rs")], ["from_bytes, from_ump, try_ forms, data(), payload()"]),
    P("P08", "Editing a sysex7 payload gives exactly the edited payload",
      "For any sysex7 message (UMP or bytes, any packetisation) and any edit - splice_payload with any range, "
      "set_payload, append_payload, insert_payload, append_byte, set_byte, and the try_ forms - with any iterator of new "
      "bytes (whatever its size hint), the payload afterwards is the old one with the edit applied as on a list of bytes; "
      "the group is unchanged; the message is encoded in the minimal packets with right statuses and parses. Indices past "
      "the end panic as documented and never change memory silently.",
      ["inputs", "histories"], "every message, every edit and every new content within the bounds",
      "Tests splice a handful of ranges with exact size hints in full packets; index arithmetic over packet boundaries "
      "and size hint handling fail at particular combinations.",
      ["sysex7", "traits.rs", "detail/helpers.rs"],
      [("splice_payload_detail, shift_tail_forward/backward", "midi2/src/sysex7.rs"), ("Sysex trait", "midi2/src/traits.rs")],
      ["payload(), payload_size(), data(), group()"]),
    P("P09", "Editing a sysex8 payload gives exactly the edited payload",
      "For any sysex8 message of any packetisation and any edit - splice, set, append, insert, append_byte, set_byte, and "
      "the try_ forms - with any iterator of new bytes, the payload afterwards is the old one with the edit applied as on "
      "a list of bytes; group and stream id are unchanged and carried by every packet; the message is encoded in the "
      "minimal packets with right statuses and counts and parses. Indices past the end panic as documented.",
      ["inputs", "histories"], "every message, every edit and every new content within the bounds",
      "Tests splice a handful of ranges with exact size hints in full packets and stream id 0.",
      ["sysex8", "traits.rs", "detail/helpers.rs"],
      [("splice_payload_detail", "midi2/src/sysex8.rs"), ("Sysex trait", "midi2/src/traits.rs")],
      ["payload(), payload_size(), data(), group(), stream_id()"]),
    P("P10", "Parsing system exclusive data accepts exactly what is well formed",
      "A slice of any words or bytes parses as a sysex7 or sysex8 message (or packet) exactly when it begins with one well "
      "formed message (packet): right message type, statuses complete or start, continue.., end, one group and stream id "
      "throughout, legal packet sizes; for bytes F0, bytes below 0x80, F7. What parses is read without panic and its data, "
      "payload, group and stream id are those of the specification. A rejected slice gives an error, never a panic.",
      ["inputs"], "every content of slices up to the bounds",
      "The space of malformed inputs is exponential; tests pin about a dozen.",
      ["sysex7", "sysex8", "detail/helpers.rs"],
      [("TryFrom<&[U]>", "midi2/src/sysex7.rs, midi2/src/sysex8.rs"), ("Packet", "midi2/src/sysex7/packet.rs, midi2/src/sysex8/packet.rs")],
      ["try_from, data(), payload()"]),
    P("P11", "Payload iterators behave like an iterator over the payload bytes",
      "For every valid system exclusive message (UMP and bytes) and packet, payload() behaves at every position as an "
      "iterator over a slice of the payload bytes: next, nth (any argument), len, size_hint, count, last, clone; it is "
      "empty for ever once exhausted, never panics and never shows bytes of what follows the message.",
      ["inputs", "histories"], "every message within the bounds, every position, every argument",
      "Tests check nth for sample positions in full packets.",
      ["sysex7", "sysex8", "detail/helpers.rs"],
      [("PayloadIterator", "midi2/src/sysex7.rs, midi2/src/sysex8.rs")], ["payload() of messages and packets"]),
    P("P12", "Group, channel and stream id setters write every packet and nothing else",
      "Setting the group (and channel, and stream id) of a valid message of any number of packets makes the getter return "
      "the value, writes the field in every packet of the message, and leaves every other bit of the message and of what "
      "follows it in the buffer unchanged; the message stays valid.",
      ["inputs"], "every message within the bounds, every old and new value",
      "Setter tests use single packets or a single sample value.",
      ["sysex7", "sysex8", "flex_data", "ump_stream", "detail/common_properties.rs", "traits.rs"],
      [("Grouped/Channeled", "midi2/src/traits.rs")], ["set_group, set_channel, set_stream_id, data()"]),
    P("P13", "packets() splits every message into its packets",
      "For every valid message, packets() yields exactly the packets of the message in order, its length is exact, each "
      "is a valid packet of the message's kind carrying the message's group, together they hold exactly the words (and "
      "payload) of the message, and words behind the message are not shown. It never panics.",
      ["inputs"], "every message within the bounds, whatever follows it in the buffer",
      "Tests check a few sample messages.",
      ["packet.rs", "packets.rs", "sysex7/packet.rs", "sysex8/packet.rs", "flex_data/packet.rs", "ump_stream/packet.rs"],
      [("PacketsIterator", "midi2/src/packets.rs")], ["packets()"]),
    P("P14", "Copying a message into another buffer keeps it",
      "rebuffer_from, try_rebuffer_from and array_rebuffer_from give a message with the same data (and payload) whatever "
      "the source buffer holds behind the message; the fallible form succeeds whenever the source buffer's content fits "
      "and fails when the message does not.",
      ["inputs"], "every message within the bounds, every kind and size of target",
      "Tests check one or two messages per type.",
      ["sysex7", "sysex8", "traits.rs", "buffer.rs", "detail/helpers.rs"],
      [("RebufferFrom family", "midi2/src/traits.rs, midi2_proc/src/generate_message.rs")], ["data() of the copy"]),
    P("P20", "Fallible operations succeed exactly when the result fits",
      "In a buffer of fixed size every try_ operation on a system exclusive or text message succeeds exactly when the resulting "
      "message fits the buffer, then with the right result, whatever the unused part of the buffer held; otherwise it "
      "returns an error and leaves a valid message. It never panics and never truncates.",
      ["inputs", "histories"], "every edit within the bounds, every previous content of the buffer",
      "Tests use zeroed buffers and one or two sizes.",
      ["sysex7", "sysex8", "buffer.rs", "detail/helpers.rs"],
      [("try_resize", "midi2/src/buffer.rs, midi2/src/sysex7.rs, midi2/src/sysex8.rs")],
      ["the result of the try_ form and data() afterwards"]),
    P("P19", "A new message is valid, complete and independent of the buffer's old content",
      "Creating a message of any type in any kind of buffer gives a message of the type's size with the "
      "type's header and default fields, which parses as that type, whatever the buffer held before. The fallible "
      "forms succeed exactly when the buffer is large enough and never panic.",
      ["inputs"], "every message type, every buffer kind, every buffer length up to 4 words, every previous content",
      "The constructor tests use zeroed arrays of the exact size.",
      FIXED + ["sysex7", "sysex8", "ci", "buffer.rs", "detail/helpers.rs"],
      [("generated new/try_new/new_with_buffer", "midi2_proc/src/generate_message.rs")],
      ["new, try_new, new_with_buffer, try_new_with_buffer"]),
    P("P03", "Any words can be parsed: accepted or rejected, never a panic",
      "For a slice of any length and any words, parsing as any message type, as a family, as UmpMessage or as a packet "
      "returns a message or an error and never panics; every accessor of a message that was accepted can be called "
      "without panic; a slice is accepted as a message type exactly when it begins with a well formed message of that type.",
      ["inputs"], "every content of slices up to the bounds, every message type, every accessor",
      "A library for parsing data from outside must withstand all of it; tests pin a few malformed slices per type.",
      FIXED + ["message.rs", "sysex7", "sysex8"],
      [("UmpMessage::try_from", "midi2/src/message.rs"), ("validation of properties", "midi2_proc/src/generate_message.rs")],
      ["try_from and every getter"]),
    P("P04", "Any bytes can be parsed: accepted or rejected, never a panic",
      "For a slice of any length and any bytes, parsing as any message type with a byte form, as a family, as BytesMessage "
      "or as a MIDI-CI query returns a message or an error and never panics; every accessor of what was accepted can be "
      "called without panic; every well formed message is accepted and its data is exactly its bytes.",
      ["inputs"], "every content of slices up to the bounds, every message type, every accessor",
      "Tests pin a few malformed slices per type.",
      ["message.rs", "channel_voice1", "system_common", "sysex7", "ci"],
      [("BytesMessage::try_from", "midi2/src/message.rs")], ["try_from and every getter"]),
    P("P05", "Message type, family and any-message parsing agree",
      "For any slice, UmpMessage (BytesMessage), the family enum and the message type itself agree on whether it is a "
      "message; the variant is the one the specification assigns to the header; data, group, channel and packets are the "
      "same at the three levels; a family rejects other families' messages and headers which are not assigned are rejected. "
      "Converting a message into its family and the family into UmpMessage keeps it, and so do copies made at any level.",
      ["inputs"], "every message type with every content, every unassigned header",
      "The dispatch tables have 80 entries; tests parse one sample for some of them.",
      ["message.rs"] + FIXED,
      [("TryFrom of the family enums", "midi2/src/channel_voice1.rs, .."), ("derived enum traits", "midi2_proc/src/derives.rs")],
      ["try_from, From, data(), group(), channel(), packets()"]),
    P("P15", "Flex data text is stored in its packets as specified and read back",
      "Setting the text of any flex data text message, over whatever it held before, gives exactly the packets of the "
      "specification (form, address, bank and status in each, twelve bytes each, zero padded); the text, its bytes (in "
      "order, with lawful size hints), group, channel, bank and status read back, whether from the message, a copy or the "
      "parsed words; words which are not one well formed text message are rejected, and no others.",
      ["inputs", "histories"], "every text within the bounds, every previous text, every group and address",
      "Tests use one or two texts per type; lengths at packet boundaries, characters across packets and shrinking texts "
      "are where code fails.",
      ["flex_data"],
      [("TextReadBytesProperty, TextWriteStrProperty", "midi2/src/flex_data.rs")],
      ["set_text, try_set_text, text, text_bytes, data()"]),
    P("P16", "UMP stream names are stored in their packets as specified and read back",
      "Setting the endpoint name, product instance id or function block name, over whatever was there before, gives exactly "
      "the packets of the specification (form, status, and the function block in each; 14 or 13 bytes each, zero padded); "
      "the text, its bytes and the function block read back, whether from the message, a copy or the parsed words; words "
      "which are not one well formed message are rejected, and no others.",
      ["inputs", "histories"], "every text within the bounds, every previous text, every function block",
      "Tests use one or two texts per type.",
      ["ump_stream"],
      [("TextReadBytesProperty, TextWriteStrProperty", "midi2/src/ump_stream.rs")],
      ["set_name, try_set_name, name, name_bytes, data()"]),
    P("P17", "Messages copy, compare and print as their data",
      "A clone or copy of a message equals it and is not affected by changes to the original; two messages of one "
      "type (family, any message) which fill their buffers are equal exactly when their data is the same, != is the "
      "opposite; Debug prints the type (within its family and variant) and every unit of the data in hexadecimal.",
      ["inputs"], "every message type, every position and value of the unit in which two messages differ or which is printed",
      "Tests compare messages which are the same and print one sample.",
      FIXED + ["sysex7", "sysex8", "ci", "message"],
      [("derived traits", "midi2_proc/src/derives.rs, midi2_proc/src/generate_message.rs, midi2_proc/src/generate_ci.rs")],
      ["clone, ==, {:?}"]),
    P("P18", "MIDI-CI discovery queries hold their fields as specified",
      "A discovery query of either version has the bytes the MIDI-CI specification prescribes; every setter writes its "
      "field and nothing else and reads back, in seven bit bytes least significant first; slices parse exactly when they "
      "begin with a whole query of that version; new queries are the same whatever the buffer held; nothing panics.",
      ["inputs"], "every field, every value, every content of a query, every slice up to the bounds",
      "Tests set one sample value per field in a new message.",
      ["ci", "detail/encode_7bit.rs"],
      [("generated accessors", "midi2_proc/src/generate_ci.rs"), ("Encode7Bit", "midi2/src/detail/encode_7bit.rs")],
      ["new, try_from, getters and setters, data()"]),
    P("P21", "What follows a message in its buffer has no influence",
      "Whatever words (bytes) stand behind a message in the slice or buffer, the message is accepted or rejected all the "
      "same, its data, payload, text, fields and packets are the same, and copying or editing it gives the same result. "
      "(Flex data and stream messages: unless what follows is of the same kind and so a possible continuation.)",
      ["inputs"], "every message, every content and number of the words behind it within the bounds",
      "Tests put zeros or a single sample behind a few messages.",
      FIXED + ["sysex7", "sysex8", "ci", "detail/helpers.rs"],
      [("data() of each message", "midi2/src/traits.rs, midi2_proc/src/generate_message.rs")],
      ["try_from, data(), every getter"]),
]
NOT_APPLICABLE = []

TECH = "bounded symbolic execution of the compiled crate's LLVM IR with Z3"
NOTE = ("Bounded: all values within the stated bounds ({}) are covered by path-complete symbolic execution; "
        "every branch and assertion not settled by certified term simplification is decided by Z3. Trusts the "
        "IR-to-term translation (checked by native replay of sampled paths), rustc up to LLVM IR, and Z3.")


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    checks = []
    for i in sorted(plan.PROPERTIES):
        assert i in ids, i
        checks.append({
            "property": i,
            "quick_cmd": f"python3 verif.py check {i} --tier quick",
            "thorough_cmd": f"python3 verif.py check {i} --tier thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE.format(plan.PROPERTIES[i]["bounds"]),
        })
    na = [{"property": i, "reason": r} for i, r in NOT_APPLICABLE]
    assert {c["property"] for c in checks} | {n["property"] for n in na} == set(ids)
    json.dump({"version": 1, "setup_cmd": "python3 verif.py setup", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
