//! The byte form: one message, three ways to parse it; and slices of any bytes.
#![allow(dead_code)]
use crate::print::*;
use crate::sym::*;
use midi2::channel_voice1::ChannelVoice1;
use midi2::prelude::*;
use midi2::sysex7::Sysex7;
use midi2::ux::u7;
use midi2::system_common::SystemCommon;
use midi2::BytesMessage;

macro_rules! leaves {
    ($($name:ident $module:ident $Fam:ident $T:ident $bytes:literal $mask:literal $head:literal $ch:ident;)*) => {
        $(mod $name {
            use super::*;
            use midi2::$module::$T;
            pub const LEN: usize = $bytes;
            /// any bytes with this type's status
            pub fn bytes(n: usize) -> Vec<u8> {
                let mut b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
                if n > 0 {
                    b[0] = b[0] & !$mask | $head;
                }
                b
            }
            pub fn agree() {
                let n = choose($bytes + 3) as usize;
                let b = bytes(n);
                // data bytes are below 0x80; whether others are accepted is not specified
                let mut well = n >= $bytes;
                for i in 1..$bytes.min(n) {
                    well &= b[i] < 0x80;
                }
                let leaf = $T::<&[u8]>::try_from(&b[..]);
                let fam = $Fam::<&[u8]>::try_from(&b[..]);
                let msg = BytesMessage::try_from(&b[..]);
                match leaf {
                    Ok(m) => {
                        cover(stringify!($name));
                        check(n >= $bytes, "dispatch: too short a slice is rejected");
                        let Ok(f) = fam else {
                            check(false, "dispatch: the family accepts what its message type accepts");
                            return;
                        };
                        let Ok(a) = msg else {
                            check(false, "dispatch: any message accepts what the message type accepts");
                            return;
                        };
                        let BytesMessage::$Fam(g) = &a else {
                            check(false, "dispatch: the right family");
                            return;
                        };
                        check(matches!(&f, $Fam::$T(x) if *x == m), "dispatch: the right message type");
                        check(matches!(g, $Fam::$T(x) if *x == m), "dispatch: the right message type");
                        check($Fam::from(m.clone()) == f, "dispatch: made from the message type");
                        check(BytesMessage::from(f.clone()) == a, "dispatch: made from the family");
                        check(m.data() == &b[..$bytes], "dispatch: data is what was parsed");
                        check(m.data() == f.data() && m.data() == a.data(), "dispatch: the same data");
                        channel!($ch b m f);
                        match choose(5) {
                            0 => {
                                let v = $Fam::<Vec<u8>>::rebuffer_from(f);
                                check(v.data() == &b[..$bytes] && matches!(&v, $Fam::$T(_)), "family: copy into a vector");
                            }
                            1 => {
                                let v = BytesMessage::<Vec<u8>>::rebuffer_from(a);
                                check(v.data() == &b[..$bytes], "any message: copy into a vector");
                                check(matches!(&v, BytesMessage::$Fam($Fam::$T(_))), "any message: copy keeps the type");
                                let r = BytesMessage::<[u8; 3]>::try_rebuffer_from(v);
                                // the whole of the old buffer counts, not only the message
                                check(n > 3 || r.is_ok(), "any message: copy into a large enough array");
                                check(r.is_err() || matches!(&r, Ok(x) if x.data() == &b[..$bytes]), "any message: copy into an array");
                            }
                            2 => {
                                let r = BytesMessage::<[u8; 2]>::try_rebuffer_from(a);
                                check(n > 2 || r.is_ok(), "any message: copy succeeds when the buffer fits");
                                check($bytes <= 2 || r.is_err(), "any message: copy fails when the message does not fit");
                                if let Ok(v) = r {
                                    check(v.data() == &b[..$bytes], "any message: copy into an array");
                                }
                            }
                            3 => {
                                let c = $T::<[u8; 3]>::array_rebuffer_from(m);
                                check(c.data() == &b[..$bytes], "family: copy into an array");
                            }
                            _ => {
                                let c = $Fam::<[u8; 4]>::array_rebuffer_from(f);
                                check(c.data() == &b[..$bytes] && matches!(&c, $Fam::$T(_)), "family: copy into an array");
                            }
                        }
                    }
                    Err(_) => {
                        check(!well, "dispatch: accepts every well formed message");
                        check(fam.is_err(), "dispatch: the family rejects what its message type rejects");
                        check(msg.is_err(), "dispatch: any message rejects what the message type rejects");
                    }
                }
            }
            /// copies, comparison and what is printed
            pub fn value() {
                let (mut a, mut b) = (bytes($bytes), bytes($bytes));
                let k = choose($bytes) as usize;
                for i in 0..$bytes {
                    if i != k {
                        a[i] = if i == 0 { $head } else { 0x25 };
                        b[i] = a[i];
                    }
                }
                let (Ok(m), Ok(n)) = ($T::<&[u8]>::try_from(&a[..]), $T::<&[u8]>::try_from(&b[..])) else { return };
                cover(stringify!($name));
                let (t, f) = (stringify!($T), stringify!($Fam));
                let data = || a.iter().map(|x| *x as u32);
                let same = a[k] == b[k];
                match choose(5) {
                    0 => {
                        check((m == n) == same && (m != n) == !same, "comparison: equal exactly when the data is");
                        let (f, g) = ($Fam::from(m), $Fam::from(n));
                        check((f == g) == same && (f != g) == !same, "comparison: equal exactly when the data is");
                        let (f, g) = (BytesMessage::from(f), BytesMessage::from(g));
                        check((f == g) == same && (f != g) == !same, "comparison: equal exactly when the data is");
                    }
                    1 => {
                        let x = $T::<Vec<u8>>::rebuffer_from(m);
                        let y = $Fam::from(x.clone());
                        check(y.clone() == $Fam::from(x) && y.data() == &a[..], "copies: a clone is equal");
                        let z = BytesMessage::from(y);
                        check(z.clone() == z && z.clone().data() == &a[..], "copies: a clone is equal");
                    }
                    2 => check(printed(&m) == page(&[t], data(), 2), "printing: type and bytes"),
                    3 => check(printed(&$Fam::from(m)) == page(&[t, t], data(), 2), "printing: variant, type and bytes"),
                    _ => check(printed(&BytesMessage::from($Fam::from(m))) == page(&[f, t, t], data(), 2), "printing: family, variant, type and bytes"),
                }
            }
        })*
        const VALUES: &[fn()] = &[$($name::value),*];
        const LEAVES: &[(u8, u8, usize, fn())] = &[$(($mask, $head, $name::LEN, $name::agree)),*];
    };
}
macro_rules! channel {
    (chan $b:ident $m:ident $f:ident) => {
        check(u8::from($m.channel()) == $b[0] & 15, "dispatch: channel");
        check($f.channel() == $m.channel(), "dispatch: channel of the family");
        let mut v = ChannelVoice1::<Vec<u8>>::rebuffer_from($f.clone());
        let c = any_u4();
        v.set_channel(c);
        check(v.data()[0] == $b[0] & 0xf0 | u8::from(c) && v.data()[1..] == $m.data()[1..], "family: set_channel writes the channel and nothing else");
    };
    (none $b:ident $m:ident $f:ident) => {};
}
leaves! {
    b_note_off channel_voice1 ChannelVoice1 NoteOff 3 0xf0 0x80 chan;
    b_note_on channel_voice1 ChannelVoice1 NoteOn 3 0xf0 0x90 chan;
    b_key_pressure channel_voice1 ChannelVoice1 KeyPressure 3 0xf0 0xa0 chan;
    b_control_change channel_voice1 ChannelVoice1 ControlChange 3 0xf0 0xb0 chan;
    b_program_change channel_voice1 ChannelVoice1 ProgramChange 2 0xf0 0xc0 chan;
    b_channel_pressure channel_voice1 ChannelVoice1 ChannelPressure 2 0xf0 0xd0 chan;
    b_pitch_bend channel_voice1 ChannelVoice1 PitchBend 3 0xf0 0xe0 chan;
    b_time_code system_common SystemCommon TimeCode 2 0xff 0xf1 none;
    b_song_position_pointer system_common SystemCommon SongPositionPointer 3 0xff 0xf2 none;
    b_song_select system_common SystemCommon SongSelect 2 0xff 0xf3 none;
    b_tune_request system_common SystemCommon TuneRequest 1 0xff 0xf6 none;
    b_timing_clock system_common SystemCommon TimingClock 1 0xff 0xf8 none;
    b_start system_common SystemCommon Start 1 0xff 0xfa none;
    b_continue system_common SystemCommon Continue 1 0xff 0xfb none;
    b_stop system_common SystemCommon Stop 1 0xff 0xfc none;
    b_active_sensing system_common SystemCommon ActiveSensing 1 0xff 0xfe none;
    b_reset system_common SystemCommon Reset 1 0xff 0xff none;
}
/// any bytes whatever
fn any() {
    let n = choose(6) as usize;
    let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let mut kind = 0; // 1: has a length, 2: system exclusive
    let mut len = 0;
    if n > 0 {
        for l in LEAVES {
            if b[0] & l.0 == l.1 {
                kind = 1;
                len = l.2;
            }
        }
        if b[0] == 0xf0 {
            kind = 2;
            len = 0;
            for i in 1..n {
                if len == 0 && b[i] == 0xf7 {
                    len = i + 1;
                } else if len == 0 && b[i] > 0x7f {
                    break;
                }
            }
        }
    }
    match BytesMessage::try_from(&b[..]) {
        Ok(m) => {
            check(kind != 0, "bytes: starts with a status byte");
            check(len != 0 && m.data() == &b[..len], "bytes: data is the message");
            match m {
                BytesMessage::Sysex7(_) => {
                    cover("sysex7");
                    check(kind == 2, "bytes: system exclusive");
                }
                BytesMessage::ChannelVoice1(c) => {
                    cover("channel voice");
                    check(b[0] < 0xf0 && u8::from(c.channel()) == b[0] & 15, "bytes: a channel message");
                }
                BytesMessage::SystemCommon(_) => {
                    cover("system common");
                    check(b[0] > 0xf0, "bytes: a system message");
                }
                _ => check(false, "bytes: a known family"),
            }
        }
        Err(_) => {
            let mut well = kind == 2 && len != 0 || kind == 1 && n >= len;
            if kind == 1 {
                for i in 1..3 {
                    if i < len && i < n {
                        well &= b[i] < 0x80;
                    }
                }
            }
            check(!well, "bytes: accepts every well formed message");
        }
    }
    if n > 0 {
        check(b[0] > 0x7f && b[0] < 0xf0 || ChannelVoice1::<&[u8]>::try_from(&b[..]).is_err(), "bytes: a family rejects other families");
        check(b[0] > 0xf0 || SystemCommon::<&[u8]>::try_from(&b[..]).is_err(), "bytes: a family rejects other families");
        check(b[0] == 0xf0 || Sysex7::<&[u8]>::try_from(&b[..]).is_err(), "bytes: a family rejects other families");
    }
}
/// system exclusive messages of up to three payload bytes
fn sysex7_value() {
    let n = choose(4) as usize;
    let make = || {
        let mut b = vec![0xf0];
        b.extend((0..n).map(|_| bits(7) as u8));
        b.push(0xf7);
        b
    };
    let (a, b) = (make(), make());
    let (Ok(m), Ok(o)) = (Sysex7::<&[u8]>::try_from(&a[..]), Sysex7::<&[u8]>::try_from(&b[..])) else {
        check(false, "well formed");
        return;
    };
    let same = a == b;
    match choose(4) {
        0 => {
            cover("comparison");
            check((m == o) == same && (m != o) == !same, "comparison: equal exactly when the data is");
            check((BytesMessage::from(m) == BytesMessage::from(o)) == same, "comparison: equal exactly when the data is");
        }
        1 => {
            cover("copies");
            let mut x = Sysex7::<Vec<u8>>::rebuffer_from(m);
            let y = x.clone();
            check(x == y && y.data() == &a[..], "copies: a clone is equal");
            x.append_byte(u7::new(bits(7) as u8));
            check(y.data() == &a[..] && x != y, "copies: changing a message leaves its clone");
        }
        2 => {
            cover("printing");
            check(printed(&m) == page(&["Sysex7"], a.iter().map(|x| *x as u32), 2), "printing: type and bytes");
        }
        _ => {
            cover("printing any message");
            let p = printed(&BytesMessage::from(m));
            check(p == page(&["Sysex7", "Sysex7"], a.iter().map(|x| *x as u32), 2), "printing: type and bytes");
        }
    }
}

crate::harnesses! {
fn bytes_agree() { LEAVES[choose(LEAVES.len() as u32) as usize].3() }
fn bytes_any() { any() }
fn bytes_value() { VALUES[choose(VALUES.len() as u32) as usize]() }
fn s7_bytes_value() { sysex7_value() }
}
