//! One message, three ways to parse it: as its own type, as its family and as
//! any message. The assignment of types to headers is the specification's.
#![allow(dead_code)]
#[allow(unused_imports)]
use crate::own::*;
use crate::print::*;
use crate::sym::*;
use midi2::prelude::*;
use midi2::ux::u4;

const TRAILING: [usize; 7] = [1, 2, 3, 4, 5, 8, 9];

macro_rules! cap {
    (group $w:ident $m:ident $f:ident) => {
        check(u8::from($m.group()) as u32 == $w[0] >> 24 & 15, "dispatch: group");
        check($f.group() == $m.group(), "dispatch: group of the family");
    };
    (channel $w:ident $m:ident $f:ident) => {
        check(u8::from($m.channel()) as u32 == $w[0] >> 16 & 15, "dispatch: channel");
        check($f.channel() == $m.channel(), "dispatch: channel of the family");
    };
}
macro_rules! capset {
    (group $w:ident $m:ident) => {
        let g = bits(4) as u32;
        $m.set_group(u4::new(g as u8));
        let t = $w[0] >> 28;
        // every packet of the message
        let mut i = 0;
        while i < $w.len() {
            $w[i] = $w[i] & 0xf0ff_ffff | g << 24;
            i += if t == 0xd { 4 } else { $w.len() };
        }
        check($m.data() == &$w[..], "family: set_group writes the group and nothing else");
    };
    (channel $w:ident $m:ident) => {
        let c = bits(4) as u32;
        $m.set_channel(u4::new(c as u8));
        $w[0] = $w[0] & 0xfff0_ffff | c << 16;
        check($m.data() == &$w[..], "family: set_channel writes the channel and nothing else");
    };
}
macro_rules! leaves {
    ($($name:ident $module:ident $Fam:ident $T:ident $words:literal $mask:literal $head:literal $kind:ident [$($cap:ident)*];)*) => {
        $(mod $name {
            use super::*;
            use midi2::$module::{$Fam, $T};
            /// any words with this type's header
            pub fn words(n: usize) -> Vec<u32> {
                let mut w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
                if n > 0 {
                    w[0] = w[0] & !$mask | $head;
                }
                text!($kind w);
                w
            }
            pub fn agree() {
                let n = choose($words + 5) as usize;
                let w = words(n);
                let leaf = $T::<&[u32]>::try_from(&w[..]);
                let fam = $Fam::<&[u32]>::try_from(&w[..]);
                let msg = UmpMessage::try_from(&w[..]);
                match leaf {
                    Ok(m) => {
                        cover(stringify!($name));
                        check(n >= $words || fbd!($T), "dispatch: too short a slice is rejected");
                        let Ok(f) = fam else {
                            check(false, "dispatch: the family accepts what its message type accepts");
                            return;
                        };
                        let Ok(a) = msg else {
                            check(false, "dispatch: any message accepts what the message type accepts");
                            return;
                        };
                        let UmpMessage::$Fam(g) = &a else {
                            check(false, "dispatch: the right family");
                            return;
                        };
                        check(matches!(&f, $Fam::$T(x) if *x == m), "dispatch: the right message type");
                        check(matches!(g, $Fam::$T(x) if *x == m), "dispatch: the right message type");
                        check($Fam::from(m.clone()) == f, "dispatch: made from the message type");
                        check(UmpMessage::from(f.clone()) == a, "dispatch: made from the family");
                        if n >= $words {
                            check(m.data().len() >= 1 && m.data() == &w[..m.data().len()], "dispatch: data is what was parsed");
                        }
                        check(m.data() == f.data() && m.data() == a.data(), "dispatch: the same data");
                        $(cap!($cap w m f);)*
                        let mut p = m.packets();
                        let mut q = f.packets();
                        let mut r = a.packets();
                        check(p.len() == q.len() && q.len() == r.len() && p.len() >= 1, "dispatch: the same packets");
                        while let Some(x) = p.next() {
                            check(q.next().as_deref() == Some(&x[..]), "dispatch: the same packets");
                            check(r.next().as_deref() == Some(&x[..]), "dispatch: the same packets");
                        }
                        check(q.next().is_none() && r.next().is_none(), "dispatch: the same packets");
                        if n > $words + 3 && !fbd!($T) {
                            let it = a.packets();
                            packet_laws!(it, w[..$words], $words);
                        }
                    }
                    Err(_) => {
                        check(fam.is_err(), "dispatch: the family rejects what its message type rejects");
                        check(msg.is_err(), "dispatch: any message rejects what the message type rejects");
                    }
                }
            }
            /// copies and setters of the family act as those of the message type
            pub fn family() {
                let mut w = words($words);
                let src = w.clone();
                let Ok(f) = $Fam::<&[u32]>::try_from(&src[..]) else { return };
                if fbd!($T) {
                    known("fbd-size");
                    w.truncate(1);
                }
                cover(stringify!($name));
                match choose(6) {
                    5 => {
                        // from a mutable slice
                        let t = choose(2) as usize;
                        let mut b = src.clone();
                        if t > 0 {
                            b.push(any_u32());
                        }
                        let Ok(m) = $T::<&mut [u32]>::try_new_with_buffer(&mut b[..]) else {
                            check(false, "new: fits");
                            return;
                        };
                        let d = m.data().to_vec();
                        match choose(4) {
                            0 => match $T::<[u32; $words]>::try_rebuffer_from(m) {
                                Ok(c) => check(c.data() == &d[..], "copy of a mutable slice"),
                                Err(_) => check(t > 0, "copy of a mutable slice succeeds when it fits"),
                            },
                            1 => check($T::<Vec<u32>>::rebuffer_from(m).data() == &d[..], "copy of a mutable slice"),
                            2 => check($T::<&[u32]>::rebuffer_from(m).data() == &d[..], "copy of a mutable slice"),
                            _ => match UmpMessage::<[u32; $words]>::try_rebuffer_from(UmpMessage::from($Fam::from(m))) {
                                Ok(c) => {
                                    check(c.data() == &d[..], "copy of a mutable slice");
                                    check(matches!(&c, UmpMessage::$Fam($Fam::$T(_))), "any message: copy keeps the type");
                                }
                                Err(_) => check(t > 0, "copy of a mutable slice succeeds when it fits"),
                            },
                        }
                    }
                    4 => array!($kind $Fam $T f w),
                    0 => {
                        let mut v = $Fam::<Vec<u32>>::rebuffer_from(f);
                        check(v.data() == &w[..], "family: copy into a vector");
                        check(matches!(&v, $Fam::$T(x) if x.data() == &w[..]), "family: copy keeps the type");
                        let _ = &mut v;
                        $(capset!($cap w v);)*
                    }
                    1 => {
                        let Ok(mut v) = $Fam::<[u32; 4]>::try_rebuffer_from(f) else {
                            check(false, "family: copy into a large enough array");
                            return;
                        };
                        check(v.data() == &w[..], "family: copy into an array");
                        check(matches!(&v, $Fam::$T(x) if x.data() == &w[..]), "family: copy keeps the type");
                        let _ = &mut v;
                        $(capset!($cap w v);)*
                    }
                    2 => {
                        let v = UmpMessage::<Vec<u32>>::rebuffer_from(UmpMessage::from(f));
                        check(v.data() == &w[..], "any message: copy into a vector");
                        check(matches!(&v, UmpMessage::$Fam($Fam::$T(x)) if x.data() == &w[..]), "any message: copy keeps the type");
                        let b = UmpMessage::<[u32; 4]>::try_rebuffer_from(v);
                        check(matches!(&b, Ok(UmpMessage::$Fam($Fam::$T(x))) if x.data() == &w[..]), "any message: copy keeps the type");
                    }
                    _ => {
                        let r = UmpMessage::<[u32; 1]>::try_rebuffer_from(UmpMessage::from(f));
                        // the whole of the old buffer counts, not only the message
                        check($words > 1 || r.is_ok(), "any message: copy succeeds when the buffer fits");
                        check(w.len() <= 1 || r.is_err(), "any message: copy fails when the message does not fit");
                        if let Ok(v) = r {
                            check(v.data() == &w[..], "any message: copy into an array");
                        }
                    }
                }
            }
            /// what stands behind a message has no say
            pub fn trailing() {
                let w = words($words);
                let mut v = w.clone();
                let t = TRAILING[choose(7) as usize];
                for _ in 0..t {
                    v.push(any_u32());
                }
                // another message of the same kind could be a continuation
                if w[0] >> 28 == 0xd || w[0] >> 28 == 0xf {
                    assume(v[$words] >> 28 != w[0] >> 28);
                }
                let a = $T::<&[u32]>::try_from(&w[..]);
                let b = $T::<&[u32]>::try_from(&v[..]);
                check(a.is_ok() == b.is_ok(), "trailing words: accepted all the same");
                let c = UmpMessage::try_from(&v[..]);
                check(a.is_ok() == c.is_ok(), "trailing words: accepted all the same");
                if let (Ok(a), Ok(b), Ok(c)) = (a, b, c) {
                    cover(stringify!($name));
                    check(a.data() == b.data(), "trailing words: the same data");
                    check(a.data() == c.data(), "trailing words: the same data");
                    textsame!($kind $T a b);
                    let mut p = a.packets();
                    let mut q = c.packets();
                    while let Some(x) = p.next() {
                        check(q.next().as_deref() == Some(&x[..]), "trailing words: the same packets");
                    }
                    check(q.next().is_none(), "trailing words: the same packets");
                    let d = UmpMessage::<Vec<u32>>::rebuffer_from(c);
                    check(d.data() == a.data(), "trailing words: the same copy");
                }
            }
            /// copies and comparison
            pub fn value() {
                let size = if fbd!($T) { 1 } else { $words };
                let k = choose(size as u32) as usize;
                let fill = if stringify!($kind).len() == 4 { 0x6162_6364 } else { 0x0010_0002 };
                let w = plain(words(size), k, $head, fill);
                let v = plain(words(size), k, $head, fill);
                let (Ok(a), Ok(b)) = ($T::<&[u32]>::try_from(&w[..]), $T::<&[u32]>::try_from(&v[..])) else { return };
                cover(stringify!($name));
                match choose(3) {
                    0 => {
                        let same = w[k] == v[k];
                        check((a == b) == same && (a != b) == !same, "comparison: equal exactly when the data is");
                        let (f, g) = ($Fam::from(a), $Fam::from(b));
                        check((f == g) == same && (f != g) == !same, "comparison: equal exactly when the data is");
                        let (f, g) = (UmpMessage::from(f), UmpMessage::from(g));
                        check((f == g) == same && (f != g) == !same, "comparison: equal exactly when the data is");
                    }
                    1 => {
                        let mut x = $T::<Vec<u32>>::rebuffer_from(a);
                        let y = x.clone();
                        check(x == y && y.data() == &w[..], "copies: a clone is equal");
                        let mut w = w;
                        let _ = (&mut x, &mut w);
                        let old = w.clone();
                        $(capset!($cap w x);)*
                        check(y.data() == &old[..], "copies: changing a message leaves its clone");
                        check((x == y) == (w == old), "copies: and makes them different");
                        let f = $Fam::from(x);
                        check(f.clone() == f && f.clone().data() == &w[..], "copies: a clone is equal");
                        let a = UmpMessage::from(f);
                        check(a.clone() == a && a.clone().data() == &w[..], "copies: a clone is equal");
                    }
                    _ => {
                        let Ok(x) = $T::<[u32; $words]>::try_rebuffer_from(a) else { return };
                        let mut y = x;
                        check(x == y && y.data() == &w[..], "copies: a copy is equal");
                        let mut w = w;
                        let _ = (&mut y, &mut w);
                        let old = w.clone();
                        $(capset!($cap w y);)*
                        check(x.data() == &old[..], "copies: changing a copy leaves the message");
                    }
                }
            }
            /// what is printed of it
            pub fn print() {
                let size = if fbd!($T) { 1 } else { $words };
                let k = choose(size as u32) as usize;
                let w = plain(words(size), k, $head, if stringify!($kind).len() == 4 { 0x6162_6364 } else { 0x0010_0002 });
                let Ok(a) = $T::<&[u32]>::try_from(&w[..]) else { return };
                cover(stringify!($name));
                let (t, f) = (stringify!($T), stringify!($Fam));
                let data = || w.iter().copied();
                match choose(3) {
                    0 => check(printed(&a) == page(&[t], data(), 8), "printing: type and words"),
                    1 => check(printed(&$Fam::from(a)) == page(&[t, t], data(), 8), "printing: variant, type and words"),
                    _ => check(printed(&UmpMessage::from($Fam::from(a))) == page(&[f, t, t], data(), 8), "printing: family, variant, type and words"),
                }
            }
        })*
        const LEAVES: &[(u32, u32, fn(), fn(), fn(), fn(usize) -> Vec<u32>)] =
            &[$(($mask, $head, $name::agree, $name::family, $name::trailing, $name::words)),*];
        const VALUES: &[(fn(), fn())] = &[$(($name::value, $name::print)),*];
    };
}
/// all words but the k-th set to something plain
fn plain(mut w: Vec<u32>, k: usize, head: u32, fill: u32) -> Vec<u32> {
    for i in 0..w.len() {
        if i != k {
            w[i] = if i == 0 { head } else { fill };
        }
    }
    w
}
/// text as such is the business of text.rs: letters, and one free character
macro_rules! text {
    (fixed $w:ident) => {};
    (text $w:ident) => {
        let at = if $w.len() > 0 && $w[0] >> 28 == 0xd { 4 } else { 2 };
        for i in at..4 * $w.len() {
            crate::sx::put_octet(&mut $w, i, b'a');
        }
        if $w.len() > 3 {
            crate::sx::put_octet(&mut $w, 14, any_u8());
            crate::sx::put_octet(&mut $w, 15, any_u8());
        }
    };
}
/// copies into arrays whose size the compiler checks
macro_rules! array {
    (fixed $Fam:ident $T:ident $f:ident $w:ident) => {{
        if let $Fam::$T(m) = $f {
            let a = $T::<[u32; 4]>::array_rebuffer_from(m);
            check(a.data() == &$w[..], "family: copy into an array");
            let b = $T::<[u32; 9]>::array_rebuffer_from(a);
            check(b.data() == &$w[..], "family: copy into an array");
            arrayfam!($Fam $T b $w);
        }
    }};
    (text $Fam:ident $T:ident $f:ident $w:ident) => {{}};
}
macro_rules! arrayfam {
    (FlexData $T:ident $b:ident $w:ident) => {};
    (UmpStream $T:ident $b:ident $w:ident) => {};
    ($Fam:ident $T:ident $b:ident $w:ident) => {
        let c = $Fam::<[u32; 5]>::array_rebuffer_from($Fam::$T($b));
        check(c.data() == &$w[..], "family: copy into an array");
        check(matches!(&c, $Fam::$T(_)), "family: copy keeps the type");
    };
}
macro_rules! textsame {
    (fixed $T:ident $a:ident $b:ident) => {};
    (text ComposerName $a:ident $b:ident) => { check($a.name() == $b.name(), "trailing words: the same text"); };
    (text EndpointName $a:ident $b:ident) => { check($a.name() == $b.name(), "trailing words: the same text"); };
    (text FunctionBlockName $a:ident $b:ident) => { check($a.name() == $b.name(), "trailing words: the same text"); };
    (text ProductInstanceId $a:ident $b:ident) => { check($a.id() == $b.id(), "trailing words: the same text"); };
    (text $T:ident $a:ident $b:ident) => { check($a.text() == $b.text(), "trailing words: the same text"); };
}
macro_rules! fbd {
    (FunctionBlockDiscovery) => { true };
    ($T:ident) => { false };
}
leaves! {
    cv1_note_off channel_voice1 ChannelVoice1 NoteOff 1 0xf0f00000 0x20800000 fixed [group channel];
    cv1_note_on channel_voice1 ChannelVoice1 NoteOn 1 0xf0f00000 0x20900000 fixed [group channel];
    cv1_key_pressure channel_voice1 ChannelVoice1 KeyPressure 1 0xf0f00000 0x20a00000 fixed [group channel];
    cv1_control_change channel_voice1 ChannelVoice1 ControlChange 1 0xf0f00000 0x20b00000 fixed [group channel];
    cv1_program_change channel_voice1 ChannelVoice1 ProgramChange 1 0xf0f00000 0x20c00000 fixed [group channel];
    cv1_channel_pressure channel_voice1 ChannelVoice1 ChannelPressure 1 0xf0f00000 0x20d00000 fixed [group channel];
    cv1_pitch_bend channel_voice1 ChannelVoice1 PitchBend 1 0xf0f00000 0x20e00000 fixed [group channel];
    cv2_registered_per_note_controller channel_voice2 ChannelVoice2 RegisteredPerNoteController 2 0xf0f00000 0x40000000 fixed [group channel];
    cv2_assignable_per_note_controller channel_voice2 ChannelVoice2 AssignablePerNoteController 2 0xf0f00000 0x40100000 fixed [group channel];
    cv2_registered_controller channel_voice2 ChannelVoice2 RegisteredController 2 0xf0f00000 0x40200000 fixed [group channel];
    cv2_assignable_controller channel_voice2 ChannelVoice2 AssignableController 2 0xf0f00000 0x40300000 fixed [group channel];
    cv2_relative_registered_controller channel_voice2 ChannelVoice2 RelativeRegisteredController 2 0xf0f00000 0x40400000 fixed [group channel];
    cv2_relative_assignable_controller channel_voice2 ChannelVoice2 RelativeAssignableController 2 0xf0f00000 0x40500000 fixed [group channel];
    cv2_per_note_pitch_bend channel_voice2 ChannelVoice2 PerNotePitchBend 2 0xf0f00000 0x40600000 fixed [group channel];
    cv2_note_off channel_voice2 ChannelVoice2 NoteOff 2 0xf0f00000 0x40800000 fixed [group channel];
    cv2_note_on channel_voice2 ChannelVoice2 NoteOn 2 0xf0f00000 0x40900000 fixed [group channel];
    cv2_key_pressure channel_voice2 ChannelVoice2 KeyPressure 2 0xf0f00000 0x40a00000 fixed [group channel];
    cv2_control_change channel_voice2 ChannelVoice2 ControlChange 2 0xf0f00000 0x40b00000 fixed [group channel];
    cv2_program_change channel_voice2 ChannelVoice2 ProgramChange 2 0xf0f00000 0x40c00000 fixed [group channel];
    cv2_channel_pressure channel_voice2 ChannelVoice2 ChannelPressure 2 0xf0f00000 0x40d00000 fixed [group channel];
    cv2_channel_pitch_bend channel_voice2 ChannelVoice2 ChannelPitchBend 2 0xf0f00000 0x40e00000 fixed [group channel];
    cv2_per_note_management channel_voice2 ChannelVoice2 PerNoteManagement 2 0xf0f00000 0x40f00000 fixed [group channel];
    sysc_time_code system_common SystemCommon TimeCode 1 0xf0ff0000 0x10f10000 fixed [group];
    sysc_song_position_pointer system_common SystemCommon SongPositionPointer 1 0xf0ff0000 0x10f20000 fixed [group];
    sysc_song_select system_common SystemCommon SongSelect 1 0xf0ff0000 0x10f30000 fixed [group];
    sysc_tune_request system_common SystemCommon TuneRequest 1 0xf0ff0000 0x10f60000 fixed [group];
    sysc_timing_clock system_common SystemCommon TimingClock 1 0xf0ff0000 0x10f80000 fixed [group];
    sysc_start system_common SystemCommon Start 1 0xf0ff0000 0x10fa0000 fixed [group];
    sysc_continue system_common SystemCommon Continue 1 0xf0ff0000 0x10fb0000 fixed [group];
    sysc_stop system_common SystemCommon Stop 1 0xf0ff0000 0x10fc0000 fixed [group];
    sysc_active_sensing system_common SystemCommon ActiveSensing 1 0xf0ff0000 0x10fe0000 fixed [group];
    sysc_reset system_common SystemCommon Reset 1 0xf0ff0000 0x10ff0000 fixed [group];
    util_no_op utility Utility NoOp 1 0xf0f00000 0x0 fixed [];
    util_clock utility Utility Clock 1 0xf0f00000 0x100000 fixed [];
    util_timestamp utility Utility Timestamp 1 0xf0f00000 0x200000 fixed [];
    util_delta_clockstamp_tpq utility Utility DeltaClockstampTpq 1 0xf0f00000 0x300000 fixed [];
    util_delta_clockstamp utility Utility DeltaClockstamp 1 0xf0f00000 0x400000 fixed [];
    flex_set_tempo flex_data FlexData SetTempo 4 0xf000ffff 0xd0000000 fixed [group];
    flex_set_time_signature flex_data FlexData SetTimeSignature 4 0xf000ffff 0xd0000001 fixed [group];
    flex_set_metronome flex_data FlexData SetMetronome 4 0xf000ffff 0xd0000002 fixed [group];
    flex_set_key_signature flex_data FlexData SetKeySignature 4 0xf000ffff 0xd0000005 fixed [group];
    flex_set_chord_name flex_data FlexData SetChordName 4 0xf000ffff 0xd0000006 fixed [group];
    stream_endpoint_discovery ump_stream UmpStream EndpointDiscovery 4 0xf3ff0000 0xf0000000 fixed [];
    stream_endpoint_info ump_stream UmpStream EndpointInfo 4 0xf3ff0000 0xf0010000 fixed [];
    stream_device_identity ump_stream UmpStream DeviceIdentity 4 0xf3ff0000 0xf0020000 fixed [];
    stream_stream_configuration_request ump_stream UmpStream StreamConfigurationRequest 4 0xf3ff0000 0xf0050000 fixed [];
    stream_stream_configuration_notification ump_stream UmpStream StreamConfigurationNotification 4 0xf3ff0000 0xf0060000 fixed [];
    stream_function_block_discovery ump_stream UmpStream FunctionBlockDiscovery 4 0xf3ff0000 0xf0100000 fixed [];
    stream_function_block_info ump_stream UmpStream FunctionBlockInfo 4 0xf3ff0000 0xf0110000 fixed [];
    stream_start_of_clip ump_stream UmpStream StartOfClip 4 0xf3ff0000 0xf0200000 fixed [];
    stream_end_of_clip ump_stream UmpStream EndOfClip 4 0xf3ff0000 0xf0210000 fixed [];
    flex_unknown_metadata flex_data FlexData UnknownMetadataText 4 0xf000ffff 0xd0000100 text [group];
    flex_project flex_data FlexData ProjectName 4 0xf000ffff 0xd0000101 text [group];
    flex_composition flex_data FlexData CompositionName 4 0xf000ffff 0xd0000102 text [group];
    flex_clip flex_data FlexData MidiClipName 4 0xf000ffff 0xd0000103 text [group];
    flex_copyright flex_data FlexData CopyrightNotice 4 0xf000ffff 0xd0000104 text [group];
    flex_composer flex_data FlexData ComposerName 4 0xf000ffff 0xd0000105 text [group];
    flex_lyricist flex_data FlexData LyricistName 4 0xf000ffff 0xd0000106 text [group];
    flex_arranger flex_data FlexData ArrangerName 4 0xf000ffff 0xd0000107 text [group];
    flex_publisher flex_data FlexData PublisherName 4 0xf000ffff 0xd0000108 text [group];
    flex_primary flex_data FlexData PrimaryPerformerName 4 0xf000ffff 0xd0000109 text [group];
    flex_accompanying flex_data FlexData AccompanyingPerformerName 4 0xf000ffff 0xd000010a text [group];
    flex_date flex_data FlexData RecordingDate 4 0xf000ffff 0xd000010b text [group];
    flex_location flex_data FlexData RecordingLocation 4 0xf000ffff 0xd000010c text [group];
    flex_unknown_performance flex_data FlexData UnknownPerformanceText 4 0xf000ffff 0xd0000200 text [group];
    flex_lyrics flex_data FlexData Lyrics 4 0xf000ffff 0xd0000201 text [group];
    flex_language flex_data FlexData LyricsLanguage 4 0xf000ffff 0xd0000202 text [group];
    flex_ruby flex_data FlexData Ruby 4 0xf000ffff 0xd0000203 text [group];
    flex_ruby_language flex_data FlexData RubyLanguage 4 0xf000ffff 0xd0000204 text [group];
    stream_endpoint_name ump_stream UmpStream EndpointName 4 0xf3ff0000 0xf0030000 text [];
    stream_product_instance_id ump_stream UmpStream ProductInstanceId 4 0xf3ff0000 0xf0040000 text [];
    stream_function_block_name ump_stream UmpStream FunctionBlockName 4 0xf3ff0000 0xf0120000 text [];
}

/// headers no message has
fn unassigned() {
    let n = choose(6) as usize;
    let w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    if n > 0 {
        assume(w[0] >> 28 != 3 && w[0] >> 28 != 5);
        for l in LEAVES {
            assume(w[0] & l.0 != l.1);
        }
    }
    check(UmpMessage::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::channel_voice1::ChannelVoice1::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::channel_voice2::ChannelVoice2::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::system_common::SystemCommon::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::utility::Utility::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::flex_data::FlexData::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    check(midi2::ump_stream::UmpStream::try_from(&w[..]).is_err(), "dispatch: unassigned headers are rejected");
    cover("rejected");
}
/// a family does not accept another family's messages
fn foreign() {
    let l = LEAVES[choose(LEAVES.len() as u32) as usize];
    let w = l.5(4);
    let t = l.1 >> 28;
    check(t == 2 || midi2::channel_voice1::ChannelVoice1::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(t == 4 || midi2::channel_voice2::ChannelVoice2::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(t == 1 || midi2::system_common::SystemCommon::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(t == 0 || midi2::utility::Utility::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(t == 0xd || midi2::flex_data::FlexData::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(t == 0xf || midi2::ump_stream::UmpStream::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(midi2::sysex7::Sysex7::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    check(midi2::sysex8::Sysex8::<&[u32]>::try_from(&w[..]).is_err(), "dispatch: a family rejects other families");
    cover("rejected");
}
/// system exclusive messages are their own family
fn sysex() {
    let n = choose(9) as usize;
    let mut w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    if n == 0 {
        check(UmpMessage::try_from(&w[..]).is_err(), "dispatch: nothing is no message");
        return;
    }
    if choose(2) == 0 {
        w[0] = w[0] & 0x0fff_ffff | 3 << 28;
        let l = midi2::sysex7::Sysex7::<&[u32]>::try_from(&w[..]);
        match (l, UmpMessage::try_from(&w[..])) {
            (Ok(l), Ok(UmpMessage::Sysex7(m))) => {
                cover("sysex7");
                check(l == m && UmpMessage::from(l.clone()).data() == m.data(), "dispatch: the same message");
                let c = UmpMessage::<Vec<u32>>::rebuffer_from(UmpMessage::from(m));
                check(matches!(&c, UmpMessage::Sysex7(x) if x.data() == l.data()), "any message: copy into a vector");
            }
            (Err(_), Err(_)) => {}
            _ => check(false, "dispatch: accepts what the message type accepts"),
        }
    } else {
        w[0] = w[0] & 0x0fff_ffff | 5 << 28;
        let l = midi2::sysex8::Sysex8::<&[u32]>::try_from(&w[..]);
        match (l, UmpMessage::try_from(&w[..])) {
            (Ok(l), Ok(UmpMessage::Sysex8(m))) => {
                cover("sysex8");
                check(l == m && UmpMessage::from(l.clone()).data() == m.data(), "dispatch: the same message");
                let c = UmpMessage::<Vec<u32>>::rebuffer_from(UmpMessage::from(m));
                check(matches!(&c, UmpMessage::Sysex8(x) if x.data() == l.data()), "any message: copy into a vector");
            }
            (Err(_), Err(_)) => {}
            _ => check(false, "dispatch: accepts what the message type accepts"),
        }
    }
}
/// system exclusive messages of up to two packets as values
macro_rules! sysex_value {
    ($module:ident $T:ident $byte:ty, $new:expr, $words:literal $t:literal) => {{
        let packets = 1 + choose(2) as usize;
        // complete, or start and end; the payload is free
        let make = || -> Vec<u32> {
            let mut w = vec![];
            for p in 0..packets {
                let status = if packets == 1 { 0 } else if p == 0 { 1 } else { 3 };
                for i in 0..$words {
                    w.push(if i > 0 { 0x0102_0304 } else { $t << 28 | status << 20 | 3 << 16 | 0x0102 });
                }
            }
            w
        };
        let (mut w, mut v) = (make(), make());
        let k = choose(w.len() as u32) as usize;
        if k % $words == 0 {
            if k == 0 && packets == 1 {
                let (g, h) = (bits(4) as u32, bits(4) as u32);
                w[k] |= g << 24;
                v[k] |= h << 24;
            }
        } else {
            w[k] = any_u32() & 0x7f7f_7f7f;
            v[k] = any_u32() & 0x7f7f_7f7f;
        }
        let same = w[k] == v[k];
        let (Ok(a), Ok(b)) = (midi2::$module::$T::<&[u32]>::try_from(&w[..]), midi2::$module::$T::<&[u32]>::try_from(&v[..])) else {
            check(false, "well formed");
            return;
        };
        match choose(4) {
            0 => {
                cover("comparison");
                check((a == b) == same && (a != b) == !same, "comparison: equal exactly when the data is");
                check((UmpMessage::from(a) == UmpMessage::from(b)) == same, "comparison: equal exactly when the data is");
            }
            1 => {
                cover("copies");
                let mut x = midi2::$module::$T::<Vec<u32>>::rebuffer_from(a);
                let y = x.clone();
                check(x == y && y.data() == &w[..], "copies: a clone is equal");
                x.append_byte($new(bits(7) as u8));
                check(y.data() == &w[..] && x != y, "copies: changing a message leaves its clone");
            }
            2 => {
                cover("printing");
                check(printed(&a) == page(&[stringify!($T)], w.iter().copied(), 8), "printing: type and words");
            }
            _ => {
                cover("printing any message");
                let p = printed(&UmpMessage::from(a));
                check(p == page(&[stringify!($T), stringify!($T)], w.iter().copied(), 8), "printing: variant, type and words");
            }
        }
    }};
}
fn sysex_value() {
    if choose(2) == 0 {
        sysex_value!(sysex7 Sysex7 u7, midi2::ux::u7::new, 2 3);
    } else {
        sysex_value!(sysex8 Sysex8 u8, |x: u8| x, 4 5);
    }
}
macro_rules! packet {
    ($w:ident $n:ident $module:ident $t:literal $size:literal $least:literal [$($cap:ident)*]) => {{
        match midi2::$module::Packet::try_from(&$w[..]) {
            Ok(mut p) => {
                cover(stringify!($module));
                check($n >= $least && $w[0] >> 28 == $t, "packet: of its own type");
                if $n >= $size {
                    check(&*p == &$w[..$size], "packet: the words of the packet");
                } else {
                    check(p.len() == $size && &p[..$n] == &$w[..], "packet: the words there are");
                    check(p[$n..].iter().all(|x| *x == 0), "packet: zeros for those which are not");
                }
                let mut x: Vec<u32> = p.to_vec();
                let _ = (&mut p, &mut x);
                $(packetcap!($cap p x);)*
            }
            Err(_) => check(!($n >= $size && $w[0] >> 28 == $t) || $t == 3 || $t == 5, "packet: accepts every packet"),
        }
    }};
}
macro_rules! packetcap {
    (group $p:ident $x:ident) => {
        check(u8::from($p.group()) as u32 == $x[0] >> 24 & 15, "packet: group");
        let g = bits(4) as u32;
        $p.set_group(u4::new(g as u8));
        $x[0] = $x[0] & 0xf0ff_ffff | g << 24;
        check(&*$p == &$x[..], "packet: set_group writes the group and nothing else");
    };
    (channel $p:ident $x:ident) => {
        check(u8::from($p.channel()) as u32 == $x[0] >> 16 & 15, "packet: channel");
        let g = bits(4) as u32;
        $p.set_channel(u4::new(g as u8));
        $x[0] = $x[0] & 0xfff0_ffff | g << 16;
        check(&*$p == &$x[..], "packet: set_channel writes the channel and nothing else");
    };
    (flexfmt $p:ident $x:ident) => {
        use midi2::flex_data::Format::*;
        let f = match $p.format() { Complete => 0, Start => 1, Continue => 2, End => 3 };
        check(f == $x[0] >> 22 & 3, "packet: format");
    };
    (streamfmt $p:ident $x:ident) => {
        use midi2::ump_stream::Format::*;
        let f = match $p.format() { Complete => 0, Start => 1, Continue => 2, End => 3 };
        check(f == $x[0] >> 26 & 3, "packet: format");
    };
}
/// packets on their own
fn packets() {
    let n = choose(6) as usize;
    let w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    match choose(8) {
        0 => packet!(w n utility 0 1 1 []),
        1 => packet!(w n system_common 1 1 1 [group]),
        2 => packet!(w n channel_voice1 2 1 1 [group channel]),
        3 => packet!(w n sysex7 3 2 2 [group]),
        4 => packet!(w n channel_voice2 4 2 1 [group channel]),
        5 => packet!(w n sysex8 5 4 4 [group]),
        6 => packet!(w n flex_data 0xd 4 2 [flexfmt group]),
        _ => packet!(w n ump_stream 0xf 4 1 [streamfmt]),
    }
}
fn leaf(k: usize) {
    let l = &LEAVES[choose(LEAVES.len() as u32) as usize];
    match k {
        0 => l.2(),
        1 => l.3(),
        _ => l.4(),
    }
}

crate::harnesses! {
fn disp_agree() { leaf(0) }
fn disp_family() { leaf(1) }
fn disp_trailing() { leaf(2) }
fn disp_unassigned() { unassigned() }
fn disp_foreign() { foreign() }
fn disp_sysex() { sysex() }
fn disp_packets() { packets() }
fn disp_value() { VALUES[choose(VALUES.len() as u32) as usize].0() }
fn disp_sysex_value() { sysex_value() }
fn disp_print() { VALUES[choose(VALUES.len() as u32) as usize].1() }
}
