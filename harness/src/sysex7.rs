//! System exclusive 7 bit messages.
use crate::sx::*;
#[allow(unused_imports)]
use crate::own::*;
use crate::sym::*;
use midi2::prelude::*;
use midi2::sysex7::{Packet, Sysex7};

const SIZES: &[u8] = &[0, 1, 2, 3, 4, 5, 6];
fn stream<B: midi2::buffer::Buffer>(_: &Sysex7<B>) -> u8 {
    0
}
fn set_stream<B: midi2::buffer::Buffer>(_: &mut Sysex7<B>, _: u8) {}
fn packet_status(p: &Packet, status: u32, _: bool, _: u32) {
    const NAMES: [&str; 4] = ["Complete", "Start", "Continue", "End"];
    let k = concrete(status as u64) as usize;
    check(k < 4 && shows(&p.status(), NAMES[k]), "packet: status");
}
const FEW: &[u8] = &[0, 1, 6];
sx_ump!(K7, Sysex7, SIZES);

fn edit_vec_bytes(op: Op, maxn: usize, maxd: usize, spans: usize) {
    let n = choose(maxn as u32 + 1) as usize;
    let cur = arb_bytes::<K7>(n);
    let mut b = vec![0xf0];
    b.extend_from_slice(&cur);
    b.push(0xf7);
    let Ok(src) = Sysex7::<&[u8]>::try_from(&b[..]) else {
        check(false, "a well formed message parses");
        return;
    };
    let mut m = Sysex7::<Vec<u8>>::rebuffer_from(src);
    let (e, want) = arb_edit::<K7>(op, &cur, maxd, spans);
    e.apply::<K7, _, _>(&mut m, n);
    cover("edited");
    reads::<K7, _, _>(&m, &want);
    well_formed_bytes(m.data(), &want);
    check(Sysex7::<&[u8]>::try_from(m.data()).is_ok(), "edit: the message parses");
}
fn edit_dirty_bytes<const N: usize>(op: Op, maxd: usize, spans: usize) {
    let mut junk = [0u8; N];
    for w in junk.iter_mut() {
        *w = any_u8();
    }
    let Ok(mut m) = Sysex7::<[u8; N]>::try_new_with_buffer(junk) else {
        check(false, "a new message fits");
        return;
    };
    let n0 = choose((N - 2) as u32 + 1) as usize;
    let first = arb_bytes::<K7>(n0);
    check(
        m.try_set_payload(first.iter().map(|b| K7::b(*b))).is_ok(),
        "try: succeeds exactly when the result fits",
    );
    let (e, want) = arb_edit::<K7>(op, &first, maxd, spans);
    let fits = want.len() + 2 <= N;
    let ok = e.try_apply::<K7, _, _>(&mut m, n0);
    check(ok == fits, "try: succeeds exactly when the result fits");
    let want = if ok { &want[..] } else { &[] };
    if ok {
        cover("edited");
    } else {
        cover("did not fit");
    }
    reads::<K7, _, _>(&m, want);
    well_formed_bytes(m.data(), want);
    check(Sysex7::<&[u8]>::try_from(m.data()).is_ok(), "edit: the message parses");
}
/// byte form in buffers of the user's own, and with bytes behind
fn edit_own_bytes(op: Op, maxd: usize) {
    const N: usize = 7;
    let n0 = choose(5) as usize;
    let first = arb_bytes::<K7>(n0);
    let len = [0, 1, 2, N][choose(4) as usize];
    match choose(3) {
        0 => {
            let Ok(mut m) = Sysex7::<Room<u8, N>>::try_new_with_buffer(Room::any(len)) else {
                check(false, "a new message fits");
                return;
            };
            well_formed_bytes(m.data(), &[]);
            check(m.try_set_payload(first.iter().map(|b| K7::b(*b))).is_ok(), "try: succeeds exactly when the result fits");
            let (e, want) = arb_edit::<K7>(op, &first, maxd, 5);
            let ok = e.try_apply::<K7, _, _>(&mut m, n0);
            check(ok == (want.len() + 2 <= N), "try: succeeds exactly when the result fits");
            cover(if ok { "room" } else { "no room" });
            let want = if ok { &want[..] } else { &[] };
            reads::<K7, _, _>(&m, want);
            well_formed_bytes(m.data(), want);
        }
        1 => {
            let mut m = Sysex7::<Grow<u8>>::new_with_buffer(Grow::any(len));
            well_formed_bytes(m.data(), &[]);
            m.set_payload(first.iter().map(|b| K7::b(*b)));
            let (e, want) = arb_edit::<K7>(op, &first, maxd, 5);
            e.apply::<K7, _, _>(&mut m, n0);
            cover("grown");
            reads::<K7, _, _>(&m, &want);
            well_formed_bytes(m.data(), &want);
        }
        _ => {
            let mut b = vec![0xf0];
            b.extend_from_slice(&first);
            b.push(0xf7);
            for _ in 0..1 + choose(2) {
                b.push(any_u8());
            }
            let Ok(src) = Sysex7::<&[u8]>::try_from(&b[..]) else {
                check(false, "a well formed message parses whatever follows it");
                return;
            };
            let mut m = Sysex7::<Vec<u8>>::rebuffer_from(src);
            let (e, want) = arb_edit::<K7>(op, &first, maxd, 5);
            e.apply::<K7, _, _>(&mut m, n0);
            cover("more behind");
            reads::<K7, _, _>(&m, &want);
            well_formed_bytes(m.data(), &want);
        }
    }
}
/// longer byte messages
fn edit_long_bytes(op: Op) {
    let n = [12, 16, 17][choose(3) as usize];
    let cur = arb_bytes::<K7>(n);
    let mut b = vec![0xf0];
    b.extend_from_slice(&cur);
    b.push(0xf7);
    let (e, want) = arb_edit::<K7>(op, &cur, 17, 17);
    let Ok(src) = Sysex7::<&[u8]>::try_from(&b[..]) else {
        check(false, "a well formed message parses");
        return;
    };
    if choose(2) == 0 {
        let mut m = Sysex7::<Vec<u8>>::rebuffer_from(src);
        e.apply::<K7, _, _>(&mut m, n);
        reads::<K7, _, _>(&m, &want);
        well_formed_bytes(m.data(), &want);
        cover("vector");
    } else {
        let Ok(mut m) = Sysex7::<[u8; 24]>::try_rebuffer_from(src) else {
            check(false, "copying into a large enough array succeeds");
            return;
        };
        let ok = e.try_apply::<K7, _, _>(&mut m, n);
        check(ok == (want.len() + 2 <= 24), "try: succeeds exactly when the result fits");
        let want = if ok { &want[..] } else { &[] };
        cover(if ok { "array" } else { "did not fit" });
        reads::<K7, _, _>(&m, want);
        well_formed_bytes(m.data(), want);
    }
}
/// copies of byte messages in mutable slices
fn bytes_rebuffer_mut() {
    let n = 2 + choose(5) as usize;
    let mut junk: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let len = choose(n as u32 - 1) as usize;
    let p = arb_bytes::<K7>(len);
    let Ok(mut m) = Sysex7::<&mut [u8]>::try_new_with_buffer(&mut junk[..]) else {
        check(false, "a new message fits");
        return;
    };
    check(m.try_set_payload(p.iter().map(|b| K7::b(*b))).is_ok(), "try: succeeds exactly when the result fits");
    well_formed_bytes(m.data(), &p);
    match choose(3) {
        0 => {
            cover("slice");
            let c = Sysex7::<&[u8]>::rebuffer_from(m);
            well_formed_bytes(c.data(), &p);
            let c = Sysex7::<Vec<u8>>::rebuffer_from(c);
            well_formed_bytes(c.data(), &p);
        }
        1 => {
            cover("vec");
            let c = Sysex7::<Vec<u8>>::rebuffer_from(m);
            well_formed_bytes(c.data(), &p);
            reads::<K7, _, _>(&c, &p);
        }
        _ => {
            let r = Sysex7::<[u8; 4]>::try_rebuffer_from(m);
            check(r.is_ok() || n > 4, "rebuffer: succeeds when it fits");
            check(r.is_err() || len <= 2, "rebuffer: fails when it does not fit");
            if let Ok(c) = r {
                cover("array");
                well_formed_bytes(c.data(), &p);
                reads::<K7, _, _>(&c, &p);
            }
        }
    }
}

fn beyond_bytes() {
    let len = choose(4) as usize;
    let cur = arb_bytes::<K7>(len);
    let mut b = vec![0xf0];
    b.extend_from_slice(&cur);
    b.push(0xf7);
    b.push(any_u8());
    let Ok(src) = Sysex7::<&[u8]>::try_from(&b[..]) else { return };
    let more = choose(3) as usize;
    match choose(4) {
        0 => {
            let mut m = Sysex7::<Vec<u8>>::rebuffer_from(src);
            panic_ok(true);
            m.set_byte(K7::b(any_byte::<K7>()), len + more);
        }
        1 => {
            let Ok(mut m) = Sysex7::<[u8; 9]>::try_rebuffer_from(src) else { return };
            panic_ok(true);
            m.set_byte(K7::b(any_byte::<K7>()), len + more);
        }
        2 => {
            let mut m = Sysex7::<Vec<u8>>::rebuffer_from(src);
            let d = arb_bytes::<K7>(choose(3) as usize);
            panic_ok(true);
            m.insert_payload(Hinted::<K7>::new(&d, choose(4)), len + 1 + more);
        }
        _ => {
            let Ok(mut m) = Sysex7::<[u8; 9]>::try_rebuffer_from(src) else { return };
            let d = arb_bytes::<K7>(choose(3) as usize);
            panic_ok(true);
            let _ = m.try_insert_payload(Hinted::<K7>::new(&d, choose(4)), len + 1 + more);
        }
    }
    check(false, "an index past the payload panics");
}


fn bytes_rebuffer(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let mut b = vec![0xf0];
    b.extend_from_slice(&arb_bytes::<K7>(n));
    b.push(0xf7);
    let len = b.len();
    let t = choose(3) as usize;
    for _ in 0..t {
        b.push(any_u8());
    }
    let Ok(m) = Sysex7::<&[u8]>::try_from(&b[..]) else { return };
    check(m.data() == &b[..len], "data is the message");
    match choose(4) {
        0 => {
            let c = Sysex7::<Vec<u8>>::rebuffer_from(m);
            check(c.data() == &b[..len], "rebuffer: same data");
            reads::<K7, _, _>(&c, &b[1..len - 1]);
            cover("vec");
        }
        1 => {
            let r = Sysex7::<[u8; 4]>::try_rebuffer_from(m);
            check(t > 0 || r.is_ok() == (len <= 4), "rebuffer: succeeds exactly when it fits");
            if let Ok(c) = r {
                check(c.data() == &b[..len], "rebuffer: same data");
                reads::<K7, _, _>(&c, &b[1..len - 1]);
            }
        }
        2 => {
            let r = Sysex7::<[u8; 9]>::try_rebuffer_from(m);
            check(r.is_ok(), "rebuffer: succeeds exactly when it fits");
            if let Ok(c) = r {
                let c = Sysex7::<Vec<u8>>::rebuffer_from(c);
                check(c.data() == &b[..len], "rebuffer: same data");
                reads::<K7, _, _>(&c, &b[1..len - 1]);
            }
        }
        _ => {
            if len <= 6 {
                let c = Sysex7::<[u8; 6]>::array_rebuffer_from(m);
                check(c.data() == &b[..len], "rebuffer: same data");
                reads::<K7, _, _>(&c, &b[1..len - 1]);
                cover("array");
            }
        }
    }
}

fn bytes_parse(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let r = Sysex7::<&[u8]>::try_from(&b[..]);
    // up to the first F7, all of it data bytes
    let mut end = None;
    let mut clean = true;
    for i in 1..n {
        if end.is_none() {
            if b[i] == 0xf7 {
                end = Some(i);
            } else if b[i] >= 0x80 {
                clean = false;
            }
        }
    }
    let good = n > 1 && b[0] == 0xf0 && end.is_some() && clean;
    match r {
        Ok(m) => {
            cover("parsed");
            check(good, "parse: rejects what is not one well formed message");
            let e = m.data().len();
            check(Some(e - 1) == end, "parse: data is the message");
            check(m.data() == &b[..e], "parse: data is the message");
            reads::<K7, _, _>(&m, &b[1..e - 1]);
        }
        Err(_) => check(!good, "parse: accepts every well formed message"),
    }
}
fn bytes_iterate(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let p = arb_bytes::<K7>(n);
    let mut b = vec![0xf0];
    b.extend_from_slice(&p);
    b.push(0xf7);
    for _ in 0..choose(3) {
        b.push(any_u8());
    }
    let Ok(m) = Sysex7::<&[u8]>::try_from(&b[..]) else {
        check(false, "a well formed message parses whatever follows it");
        return;
    };
    let mut it = m.payload();
    let skip = choose(n as u32 + 2) as usize;
    iter_laws!(it, p, skip, K7::u);
}
/// bytes -> UMP
fn to_ump(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let p = arb_bytes::<K7>(n);
    let mut b = vec![0xf0];
    b.extend_from_slice(&p);
    b.push(0xf7);
    let len = b.len();
    for _ in 0..choose(3) {
        b.push(any_u8());
    }
    let Ok(m) = Sysex7::<&[u8]>::try_from(&b[..]) else {
        check(false, "a well formed message parses whatever follows it");
        return;
    };
    match choose(11) {
        0 => {
            let u = Sysex7::<Vec<u32>>::from_bytes(m);
            well_formed::<K7>(u.data(), &p, 0, 0);
            reads::<K7, _, _>(&u, &p);
            cover("to ump");
            let back = Sysex7::<Vec<u8>>::from_ump(u);
            check(back.data() == &b[..len], "conversion there and back gives the same bytes");
        }
        1 => try_to_ump(Sysex7::<[u32; 2]>::try_from_bytes(m), 2, &p),
        2 => try_to_ump(Sysex7::<[u32; 3]>::try_from_bytes(m), 3, &p),
        3 => try_to_ump(Sysex7::<[u32; 4]>::try_from_bytes(m), 4, &p),
        4 => try_to_ump(Sysex7::<[u32; 0]>::try_from_bytes(m), 0, &p),
        5 => try_to_ump(Sysex7::<[u32; 1]>::try_from_bytes(m), 1, &p),
        6 => try_to_ump(Sysex7::<[u32; 9]>::try_from_bytes(m), 9, &p),
        7 => {
            // from a vector which holds more
            let m = Sysex7::<Vec<u8>>::rebuffer_from(m);
            if choose(2) == 0 {
                let u = Sysex7::<Vec<u32>>::from_bytes(m);
                well_formed::<K7>(u.data(), &p, 0, 0);
            } else {
                try_to_ump(Sysex7::<[u32; 4]>::try_from_bytes(m), 4, &p)
            }
        }
        8 => {
            // from a message made in an array which held something
            let mut junk = [0u8; 15];
            for x in junk.iter_mut() {
                *x = any_u8();
            }
            let Ok(mut m) = Sysex7::<[u8; 15]>::try_new_with_buffer(junk) else { return };
            if m.try_set_payload(p.iter().map(|b| K7::b(*b))).is_err() {
                check(n > 13, "try: succeeds exactly when the result fits");
                return;
            }
            if choose(2) == 0 {
                let u = Sysex7::<Vec<u32>>::from_bytes(m);
                well_formed::<K7>(u.data(), &p, 0, 0);
            } else {
                try_to_ump(Sysex7::<[u32; 4]>::try_from_bytes(m), 4, &p)
            }
        }
        9 => {
            let u = Sysex7::<Grow<u32>>::from_bytes(m);
            well_formed::<K7>(u.data(), &p, 0, 0);
            cover("to a user's buffer");
        }
        _ => try_to_ump(Sysex7::<Room<u32, 5>>::try_from_bytes(m), 5, &p),
    }
}
fn try_to_ump<B: midi2::buffer::Ump>(r: Result<Sysex7<B>, midi2::error::BufferOverflow>, room: usize, p: &[u8]) {
    match r {
        Ok(u) => {
            cover("to ump array");
            check(size_of::<K7>(p.len()) <= room, "conversion fails when the result does not fit");
            well_formed::<K7>(u.data(), p, 0, 0);
            reads::<K7, _, _>(&u, p);
        }
        Err(_) => {
            cover("to ump array too small");
            check(size_of::<K7>(p.len()) > room, "conversion succeeds when the result fits")
        }
    }
}
/// UMP -> bytes
fn to_bytes(maxp: u32) {
    let s = arb::<K7>(maxp, SIZES);
    let mut w = s.words.clone();
    for _ in 0..choose(3) {
        w.push(any_u32());
    }
    if w.len() > s.words.len() {
        assume(w[s.words.len()] >> 28 != 3);
    }
    let Ok(m) = Sysex7::<&[u32]>::try_from(&w[..]) else {
        check(false, "a well formed message parses whatever follows it");
        return;
    };
    let p = &s.payload[..];
    match choose(11) {
        0 => {
            let b = Sysex7::<Vec<u8>>::from_ump(m);
            cover("to bytes");
            well_formed_bytes(b.data(), p);
            reads::<K7, _, _>(&b, p);
            let mut back = Sysex7::<Vec<u32>>::from_bytes(b);
            well_formed::<K7>(back.data(), p, 0, 0);
            back.set_group(midi2::ux::u4::new(s.group));
            well_formed::<K7>(back.data(), p, s.group, 0);
        }
        1 => try_to_bytes(Sysex7::<[u8; 2]>::try_from_ump(m), 2, p),
        2 => try_to_bytes(Sysex7::<[u8; 5]>::try_from_ump(m), 5, p),
        3 => try_to_bytes(Sysex7::<[u8; 9]>::try_from_ump(m), 9, p),
        4 => try_to_bytes(Sysex7::<[u8; 0]>::try_from_ump(m), 0, p),
        5 => try_to_bytes(Sysex7::<[u8; 1]>::try_from_ump(m), 1, p),
        6 => try_to_bytes(Sysex7::<[u8; 20]>::try_from_ump(m), 20, p),
        7 => {
            let m = Sysex7::<Vec<u32>>::rebuffer_from(m);
            if choose(2) == 0 {
                well_formed_bytes(Sysex7::<Vec<u8>>::from_ump(m).data(), p);
            } else {
                try_to_bytes(Sysex7::<[u8; 9]>::try_from_ump(m), 9, p)
            }
        }
        8 => {
            let mut junk = [0u32; 7];
            for x in junk.iter_mut() {
                *x = any_u32();
            }
            let Ok(mut m) = Sysex7::<[u32; 7]>::try_new_with_buffer(junk) else { return };
            if m.try_set_payload(p.iter().map(|b| K7::b(*b))).is_err() {
                check(p.len() > 18, "try: succeeds exactly when the result fits");
                return;
            }
            if choose(2) == 0 {
                well_formed_bytes(Sysex7::<Vec<u8>>::from_ump(m).data(), p);
            } else {
                try_to_bytes(Sysex7::<[u8; 9]>::try_from_ump(m), 9, p)
            }
        }
        9 => {
            well_formed_bytes(Sysex7::<Grow<u8>>::from_ump(m).data(), p);
            cover("to a user's buffer");
        }
        _ => try_to_bytes(Sysex7::<Room<u8, 9>>::try_from_ump(m), 9, p),
    }
}
fn try_to_bytes<B: midi2::buffer::Bytes>(r: Result<Sysex7<B>, midi2::error::BufferOverflow>, room: usize, p: &[u8]) {
    match r {
        Ok(b) => {
            cover("to byte array");
            check(p.len() + 2 <= room, "conversion fails when the result does not fit");
            well_formed_bytes(b.data(), p);
            reads::<K7, _, _>(&b, p);
        }
        Err(_) => {
            cover("to byte array too small");
            check(p.len() + 2 > room, "conversion succeeds when the result fits")
        }
    }
}

crate::harnesses! {
fn s7_vec() { edit_vec(arb_op(), 2, SIZES, 7, 4) }
fn s7_vec3() { edit_vec(arb_op(), 3, FEW, 2, 2) }
fn s7_array4() { edit_array::<4>(arb_op(), 2, SIZES, 7, 4) }
fn s7_array7() { edit_array::<7>(arb_op(), 2, SIZES, 7, 4) }
fn s7_array6() { edit_array::<6>(arb_op(), 3, FEW, 2, 2) }
fn s7_dirty4() { edit_dirty::<4>(arb_op(), 7, 4) }
fn s7_dirty7() { edit_dirty::<7>(arb_op(), 7, 4) }
fn s7_bytes_vec() { edit_vec_bytes(arb_op(), 9, 9, 10) }
fn s7_bytes_array() { edit_dirty_bytes::<7>(arb_op(), 6, 7) }
fn s7_bytes_array11() { edit_dirty_bytes::<11>(arb_op(), 10, 10) }
fn s7_borrowed() { edit_borrowed(arb_op(), 4, 2) }
fn s7_beyond() { beyond_ump() }
fn s7_beyond_bytes() { beyond_bytes() }
fn s7_parse() { parse(7) }
fn s7_iterate() { iterate(4, &[0, 1, 2, 6], 3) }
fn s7_bytes_parse() { bytes_parse(12) }
fn s7_bytes_iterate() { bytes_iterate(14) }
fn s7_to_ump() { to_ump(26) }
fn s7_to_bytes() { to_bytes(4) }
fn s7_bytes_own() { edit_own_bytes(arb_op(), 4) }
fn s7_bytes_long() { edit_long_bytes(arb_op()) }
fn s7_bytes_rebuffer_mut() { bytes_rebuffer_mut() }
fn s7_own() { edit_own(arb_op(), 7) }
fn s7_long() { edit_long(arb_op()) }
fn s7_parse_long() { parse_long(9) }
fn s7_packets_iterate() { packets_iterate() }
fn s7_rebuffer_mut() { rebuffer_mut() }
fn s7_headers() { headers(6, FEW) }
fn s7_packets() { packets(4, SIZES) }
fn s7_rebuffer() { rebuffer(6, FEW) }
fn s7_bytes_rebuffer() { bytes_rebuffer(5) }
fn s7_packet() { packet(3) }
fn s7_vec_deep() { edit_vec(arb_op(), 3, &[0, 1, 5, 6], 13, 7) }
fn s7_vec4_deep() { edit_vec(arb_op(), 4, FEW, 7, 7) }
fn s7_array_deep() { edit_array::<9>(arb_op(), 4, FEW, 13, 7) }
fn s7_dirty_deep() { edit_dirty::<9>(arb_op(), 13, 7) }
fn s7_parse_deep() { parse(9) }
}
