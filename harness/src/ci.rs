//! The discovery query of MIDI-CI, versions 1 and 2.
#![allow(dead_code)]
use crate::own::*;
use crate::print::*;
use crate::sym::*;
use midi2::ci::{Ci, DeviceId, DiscoveryQuery};
use midi2::prelude::*;

const fn least(version: u8) -> usize {
    if version == 1 {
        31
    } else {
        32
    }
}
/// a new query
fn new(version: u8) -> Vec<u8> {
    let mut b = vec![0; least(version)];
    b[..6].copy_from_slice(&[0xf0, 0x7e, 0x7f, 0x0d, 0x70, version]);
    b[10..14].copy_from_slice(&[0x7f; 4]);
    b[least(version) - 1] = 0xf7;
    b
}
/// any well formed query of `len` bytes
fn query(version: u8, len: usize) -> Vec<u8> {
    let mut b = new(version);
    b.resize(len, 0);
    for i in 6..len - 1 {
        if i < 10 || i > 13 {
            b[i] = bits(7) as u8;
        }
    }
    b[least(version) - 1] = bits(7) as u8;
    b[len - 1] = 0xf7;
    b
}
fn sevens(b: &[u8]) -> u64 {
    let mut v = 0;
    for i in 0..b.len() {
        v |= (b[i] as u64 & 0x7f) << (7 * i);
    }
    v
}
fn put(b: &mut [u8], v: u64) {
    for i in 0..b.len() {
        b[i] = (v >> (7 * i) & 0x7f) as u8;
    }
}
fn u7s<const N: usize>(v: u64) -> [u7; N] {
    core::array::from_fn(|i| u7::new((v >> (7 * i) & 0x7f) as u8))
}
fn num<const N: usize>(v: &[u7; N]) -> u64 {
    let mut x = 0;
    for i in 0..N {
        x |= (u8::from(v[i]) as u64) << (7 * i);
    }
    x
}
const FLAGS: [u8; 4] = [0x10, 0x08, 0x04, 0x02];
/// the octets of a field, and its width in bits
fn place(field: u32) -> (usize, usize, u32) {
    match field {
        0 => (6, 10, 28),
        1 => (14, 17, 21),
        2 => (17, 19, 14),
        3 => (19, 21, 14),
        4 => (21, 25, 28),
        5..=8 => (25, 26, 1),
        9 => (26, 30, 28),
        _ => (30, 31, 7),
    }
}
fn read(b: &[u8], field: u32) -> u64 {
    let (from, to, _) = place(field);
    match field {
        5..=8 => (b[25] & FLAGS[field as usize - 5] != 0) as u64,
        _ => sevens(&b[from..to]),
    }
}
fn write(b: &mut [u8], field: u32, v: u64) {
    let (from, to, _) = place(field);
    match field {
        5..=8 => {
            let f = FLAGS[field as usize - 5];
            b[25] = b[25] & !f | if v != 0 { f } else { 0 };
        }
        _ => put(&mut b[from..to], v),
    }
}

macro_rules! version {
    ($m:ident $V:literal $fields:literal [$($path:ident)?]) => {
        mod $m {
            use super::*;
            type Q<B> = DiscoveryQuery<$V, B>;
            const LEN: usize = least($V);
            fn get<B: midi2::buffer::Bytes>(q: &Q<B>, field: u32) -> u64 {
                match field {
                    0 => u32::from(q.source()) as u64,
                    1 => num(&q.device_manufacturer()),
                    2 => u16::from(q.device_family()) as u64,
                    3 => u16::from(q.model_number()) as u64,
                    4 => num(&q.software_version()),
                    5 => q.process_inquiry_supported() as u64,
                    6 => q.property_exchange_supported() as u64,
                    7 => q.profile_configuration_supported() as u64,
                    8 => q.protocol_negotiation_supported() as u64,
                    9 => u32::from(q.max_sysex_size()) as u64,
                    _ => { let mut x = 0; let _ = &mut x; $(x = u8::from(q.$path()) as u64;)? x }
                }
            }
            fn set<B: midi2::buffer::Bytes + midi2::buffer::BufferMut>(q: &mut Q<B>, field: u32, v: u64) {
                match field {
                    0 => q.set_source(u28::new(v as u32)),
                    1 => q.set_device_manufacturer(u7s(v)),
                    2 => q.set_device_family(u14::new(v as u16)),
                    3 => q.set_model_number(u14::new(v as u16)),
                    4 => q.set_software_version(u7s(v)),
                    5 => q.set_process_inquiry_supported(v != 0),
                    6 => q.set_property_exchange_supported(v != 0),
                    7 => q.set_profile_configuration_supported(v != 0),
                    8 => q.set_protocol_negotiation_supported(v != 0),
                    9 => q.set_max_sysex_size(u28::new(v as u32)),
                    _ => { let _ = v; path!($m q v); }
                }
            }
            fn agrees<B: midi2::buffer::Bytes>(q: &Q<B>, b: &[u8], field: u32) {
                check(q.data() == b, "ci: the bytes of the query");
                check(get(q, field) == read(b, field), "ci: a field reads its bytes");
                check(q.device_id() == DeviceId::FunctionBlock, "ci: device id");
                check(u32::from(q.destination()) == 0x0fff_ffff, "ci: destination is broadcast");
            }
            /// arbitrary bytes
            pub fn parse() {
                let n = [0, 5, 6, LEN - 1, LEN, LEN + 1, LEN + 3][choose(7) as usize];
                let b: Vec<u8> = (0..n).map(|_| any_u8()).collect();
                match Q::<&[u8]>::try_from(&b[..]) {
                    Ok(q) => {
                        cover("parsed");
                        let end = q.data().len();
                        check(end >= LEN, "ci: a query has all its fields");
                        let mut good = b[..6] == [0xf0, 0x7e, 0x7f, 0x0d, 0x70, $V];
                        good &= b[end - 1] == 0xf7;
                        for i in 1..end - 1 {
                            good &= b[i] < 0x80;
                        }
                        good &= b[10..14] == [0x7f; 4];
                        check(good, "ci: rejects what is not a query");
                        if end >= LEN {
                            agrees(&q, &b[..end], choose($fields));
                        }
                    }
                    Err(_) => {
                        // the first end of a system exclusive message
                        let mut good = n >= LEN && b[..6] == [0xf0, 0x7e, 0x7f, 0x0d, 0x70, $V] && b[10..14] == [0x7f; 4];
                        if good {
                            for i in 6..LEN - 1 {
                                good &= b[i] < 0x80;
                            }
                            good &= b[LEN - 1] == 0xf7;
                        }
                        check(!good, "ci: accepts every query");
                    }
                }
            }
            /// copies, comparison and what is printed
            pub fn value() {
                let mut a = query($V, LEN);
                let k = choose(LEN as u32) as usize;
                for i in 6..LEN - 1 {
                    if i != k && !(i > 9 && i < 14) {
                        a[i] = 0x25;
                    }
                }
                let mut b = a.clone();
                if k > 13 && k < LEN - 1 {
                    b[k] = bits(7) as u8;
                }
                let (Ok(m), Ok(n)) = (Q::<&[u8]>::try_from(&a[..]), Q::<&[u8]>::try_from(&b[..])) else {
                    check(false, "ci: accepts every query");
                    return;
                };
                match choose(3) {
                    0 => {
                        cover("comparison");
                        check((m == n) == (a[k] == b[k]), "comparison: equal exactly when the data is");
                    }
                    1 => {
                        cover("copies");
                        let mut x = Q::<Vec<u8>>::rebuffer_from(m);
                        let y = x.clone();
                        check(x == y && y.data() == &a[..], "copies: a clone is equal");
                        let f = choose($fields);
                        set(&mut x, f, bits(place(f).2));
                        check(y.data() == &a[..], "copies: changing a message leaves its clone");
                    }
                    _ => {
                        cover("printing");
                        check(printed(&m) == page(&["DiscoveryQuery"], a.iter().map(|x| *x as u32), 2), "printing: type and bytes");
                    }
                }
            }
            /// one setter
            pub fn frame() {
                let len = LEN + choose(2) as usize;
                let mut b = query($V, len);
                let mut src = b.clone();
                for _ in 0..choose(3) {
                    src.push(any_u8());
                }
                let Ok(q) = Q::<&[u8]>::try_from(&src[..]) else {
                    check(false, "ci: accepts every query");
                    return;
                };
                let field = choose($fields);
                let other = choose($fields);
                let v = bits(place(field).2);
                agrees(&q, &b, field);
                write(&mut b, field, v);
                cover("set");
                check(Q::<[u8; LEN - 1]>::try_rebuffer_from(q.clone()).is_err(), "ci: no room, no copy");
                if choose(2) == 0 {
                    let mut m = Q::<Vec<u8>>::rebuffer_from(q);
                    set(&mut m, field, v);
                    check(get(&m, field) == v, "ci: a field reads back what was set");
                    agrees(&m, &b, other);
                    check(Q::<&[u8]>::try_from(m.data()).is_ok(), "ci: still a query");
                } else {
                    match Q::<[u8; 36]>::try_rebuffer_from(q) {
                        Ok(mut m) => {
                            set(&mut m, field, v);
                            check(get(&m, field) == v, "ci: a field reads back what was set");
                            agrees(&m, &b, other);
                            check(Q::<&[u8]>::try_from(m.data()).is_ok(), "ci: still a query");
                            if m.data().len() == len {
                                check(behind(m.data(), src.len()) == &src[len..], "ci: a setter changes nothing behind the query");
                            }
                        }
                        Err(_) => check(false, "ci: the copy fits"),
                    }
                }
            }
            /// new queries, whatever was in the buffer
            pub fn fresh() {
                let b = new($V);
                let ok = |q: &[u8]| {
                    cover("new");
                    check(q == &b[..], "ci: bytes of a new query");
                    match Q::<&[u8]>::try_from(q) {
                        Ok(q) => agrees(&q, &b, choose($fields)),
                        Err(_) => check(false, "ci: a new query parses"),
                    }
                };
                match choose(9) {
                    6 => match Q::<Room<u8, LEN>>::try_new_with_buffer(Room::any([0, 1, 6, LEN][choose(4) as usize])) {
                        Ok(m) => ok(m.data()),
                        Err(_) => check(false, "ci: try_new succeeds when it fits"),
                    },
                    7 => ok(Q::<Grow<u8>>::new_with_buffer(Grow::any([0, 1, 6, LEN, LEN + 2][choose(5) as usize])).data()),
                    8 => {
                        // copies of queries in mutable slices
                        let n = LEN + choose(2) as usize;
                        let mut v: Vec<u8> = (0..n).map(|_| any_u8()).collect();
                        let Ok(mut m) = Q::<&mut [u8]>::try_new_with_buffer(&mut v[..]) else {
                            check(false, "ci: try_new succeeds when it fits");
                            return;
                        };
                        let field = choose($fields);
                        let x = bits(place(field).2);
                        set(&mut m, field, x);
                        let mut want = b.clone();
                        write(&mut want, field, x);
                        cover("copy");
                        match choose(3) {
                            0 => agrees(&Q::<&[u8]>::rebuffer_from(m), &want, field),
                            1 => agrees(&Q::<Vec<u8>>::rebuffer_from(m), &want, field),
                            _ => match Q::<[u8; LEN]>::try_rebuffer_from(m) {
                                Ok(c) => agrees(&c, &want, field),
                                Err(_) => check(n > LEN, "ci: the copy fits"),
                            },
                        }
                    }
                    0 => ok(Q::<Vec<u8>>::new().data()),
                    1 => {
                        let n = [0, 1, 2, 5, LEN - 1, LEN, LEN + 2][choose(7) as usize];
                        let v: Vec<u8> = (0..n).map(|_| any_u8()).collect();
                        ok(Q::<Vec<u8>>::new_with_buffer(v).data())
                    }
                    2 => match Q::<[u8; 40]>::try_new() {
                        Ok(m) => ok(m.data()),
                        Err(_) => check(false, "ci: try_new succeeds when it fits"),
                    },
                    3 => check(Q::<[u8; LEN - 1]>::try_new().is_err(), "ci: try_new fails when it does not fit"),
                    4 => {
                        let n = [0, 1, 2, 5, LEN - 1, LEN, LEN + 2][choose(7) as usize];
                        let mut v: Vec<u8> = (0..n).map(|_| any_u8()).collect();
                        match Q::<&mut [u8]>::try_new_with_buffer(&mut v[..]) {
                            Ok(m) => {
                                check(n >= LEN, "ci: try_new fails when it does not fit");
                                ok(m.data())
                            }
                            Err(_) => check(n < LEN, "ci: try_new succeeds when it fits"),
                        }
                    }
                    _ => {
                        let mut v = [0u8; LEN];
                        for x in v.iter_mut() {
                            *x = any_u8();
                        }
                        match Q::<[u8; LEN]>::try_new_with_buffer(v) {
                            Ok(m) => ok(m.data()),
                            Err(_) => check(false, "ci: try_new succeeds when it fits"),
                        }
                    }
                }
            }
        }
    };
}
macro_rules! path {
    (v1 $q:ident $v:ident) => {};
    (v2 $q:ident $v:ident) => {
        $q.set_output_path_id(u7::new($v as u8))
    };
}
version! { v1 1 10 [] }
version! { v2 2 11 [output_path_id] }

crate::harnesses! {
fn ci_parse() { if choose(2) == 0 { v1::parse() } else { v2::parse() } }
fn ci_frame() { if choose(2) == 0 { v1::frame() } else { v2::frame() } }
fn ci_value() { if choose(2) == 0 { v1::value() } else { v2::value() } }
fn ci_fresh() { if choose(2) == 0 { v1::fresh() } else { v2::fresh() } }
}
