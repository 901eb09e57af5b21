//! Messages which hold text: flex data text and ump stream names.
#![allow(dead_code)]
#[allow(unused_imports)]
use crate::own::*;
use crate::sym::*;
use midi2::prelude::*;
use midi2::ux::u4;

/// How a text message is laid out.
#[derive(Clone, Copy)]
pub struct Lay {
    pub ump: u32,
    /// bytes of text per packet, and the octet at which they start
    pub per: usize,
    pub lead: usize,
    /// bank and status
    pub head: u32,
    pub fmt: u32,
}
pub const fn flex(bank: u32, status: u32) -> Lay {
    Lay { ump: 0xd, per: 12, lead: 4, head: bank << 8 | status, fmt: 22 }
}
pub const fn stream(status: u32, offset: usize) -> Lay {
    Lay { ump: 0xf, per: 14 - offset, lead: 2 + offset, head: status << 16, fmt: 26 }
}
impl Lay {
    pub fn packets(&self, n: usize) -> usize {
        if n == 0 {
            1
        } else {
            (n + self.per - 1) / self.per
        }
    }
    /// the words of a message with this text; `extra` are the other header bits
    pub fn words(&self, t: &[u8], extra: u32) -> Vec<u32> {
        let k = self.packets(t.len());
        let mut w = vec![0u32; 4 * k];
        for p in 0..k {
            w[4 * p] = self.ump << 28 | self.head | extra | format(p, k) << self.fmt;
            for j in 0..self.per {
                if let Some(b) = t.get(p * self.per + j) {
                    let at = self.lead + j;
                    w[4 * p + at / 4] |= (*b as u32) << (24 - 8 * (at % 4));
                }
            }
        }
        w
    }
    pub fn lens(&self) -> [usize; 8] {
        let p = self.per;
        [0, 1, 2, p - 1, p, p + 1, 2 * p, 2 * p + 1]
    }
}
pub fn format(p: usize, k: usize) -> u32 {
    if k == 1 {
        0
    } else if p == 0 {
        1
    } else if p + 1 == k {
        3
    } else {
        2
    }
}
/// A text of `n` bytes: any characters of one byte (but NUL), and perhaps one
/// of two bytes at an interesting place.
pub fn arb_text(n: usize, per: usize) -> String {
    let mut b = vec![0u8; n];
    for x in b.iter_mut() {
        *x = bits(7) as u8;
        assume(*x != 0);
    }
    if n >= 2 {
        let at = match choose(4) {
            0 => n,
            1 => 0,
            2 => n - 2,
            _ => {
                if n > per {
                    per - 1
                } else {
                    n
                }
            }
        };
        if at < n {
            b[at] = 0xc0 | bits(5) as u8;
            b[at + 1] = 0x80 | bits(6) as u8;
            assume(b[at] >= 0xc2);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn simple_text(n: usize) -> String {
    let mut b = vec![0u8; n];
    for x in b.iter_mut() {
        *x = bits(7) as u8;
        assume(*x != 0);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn some_len(l: &Lay, max_packets: usize) -> usize {
    let lens = l.lens();
    if max_packets == 0 {
        return [0, l.per, l.per + 1, 2 * l.per + 1][choose(4) as usize];
    }
    let k = if max_packets >= 3 { 8 } else if max_packets == 2 { 7 } else { 5 };
    lens[choose(k) as usize]
}

macro_rules! text_ops {
    ($T:ident $lay:expr, $hdr:ident, $reads:ident, $set:ident $try:ident $get:ident $bytes:ident) => {
        fn agrees<B: midi2::buffer::Ump>(m: &$T<B>, t: &[u8], want: &[u32]) {
            check(m.data() == want, "text: the words are those of the specification");
            let mut it = m.$bytes();
            let mut left = t.len();
            let (lo, hi) = it.size_hint();
            check(lo <= left && hi.map_or(true, |h| h >= left), "text: size_hint");
            for b in t {
                check(it.next() == Some(*b), "text: bytes in order");
                left -= 1;
                let (lo, hi) = it.size_hint();
                check(lo <= left && hi.map_or(true, |h| h >= left), "text: size_hint");
            }
            check(it.next().is_none(), "text: ends after the last byte");
            let (lo, _) = it.size_hint();
            check(lo == 0, "text: size_hint");
            check(it.next().is_none(), "text: stays finished");
            check(m.$get().as_bytes() == t, "text: the string");
            check(m.packets().len() == want.len() / 4, "packets: one for every packet");
        }
        fn reparse(d: &[u32], t: &[u8], extra: u32) {
            match $T::<&[u32]>::try_from(d) {
                Ok(m) => {
                    cover("parsed back");
                    check(m.$get().as_bytes() == t, "text: the string, parsed back");
                    $reads!(m, extra);
                }
                Err(_) => check(false, "text: the message parses"),
            }
        }
        pub fn vec(maxp: usize) {
            let l = $lay;
            let mut m = $T::<Vec<u32>>::new();
            let order = choose(4);
            let mut extra = $hdr!(default);
            let mut t = String::new();
            if order == 0 {
                extra = $hdr!(m);
            }
            if order != 1 {
                t = simple_text(some_len(&l, maxp));
                m.$set(&t);
            }
            if order == 2 {
                extra = $hdr!(m);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
            }
            t = arb_text(some_len(&l, 3), l.per);
            m.$set(&t);
            if order == 1 || order == 3 {
                extra = $hdr!(m);
            }
            cover("set");
            let want = l.words(t.as_bytes(), extra);
            agrees(&m, t.as_bytes(), &want);
            $reads!(m, extra);
            reparse(m.data(), t.as_bytes(), extra);
        }
        pub fn array<const N: usize>(maxp: usize) {
            let l = $lay;
            let mut junk = [0u32; N];
            for w in junk.iter_mut() {
                *w = any_u32();
            }
            let Ok(mut m) = $T::<[u32; N]>::try_new_with_buffer(junk) else {
                check(false, "a new message fits");
                return;
            };
            let mut extra = $hdr!(default);
            agrees(&m, &[], &l.words(&[], extra));
            let order = choose(3);
            if order == 0 {
                extra = $hdr!(m);
            }
            let mut t = simple_text(some_len(&l, maxp));
            let fits = 4 * l.packets(t.len()) <= N;
            check(m.$try(&t).is_ok() == fits, "text: try succeeds exactly when it fits");
            if !fits {
                t.clear();
            }
            if order == 1 {
                extra = $hdr!(m);
            }
            agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
            let t2 = arb_text(some_len(&l, if maxp == 0 { 0 } else { 3 }), l.per);
            let fits = 4 * l.packets(t2.len()) <= N;
            check(m.$try(&t2).is_ok() == fits, "text: try succeeds exactly when it fits");
            if fits {
                cover("set");
                t = t2;
            } else {
                cover("did not fit");
            }
            if order == 2 {
                extra = $hdr!(m);
            }
            agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
            $reads!(m, extra);
            reparse(m.data(), t.as_bytes(), extra);
            // copies
            let w = l.words(t.as_bytes(), extra);
            let c = $T::<Vec<u32>>::rebuffer_from(m);
            agrees(&c, t.as_bytes(), &w);
            let mut c2 = c.clone();
            let r = $T::<[u32; 8]>::try_rebuffer_from(c);
            if w.len() == N || N <= 8 {
                check(r.is_ok() == (w.len() <= 8), "rebuffer: succeeds exactly when it fits");
            }
            if let Ok(a) = r {
                agrees(&a, t.as_bytes(), &w);
            }
            c2.$set("");
            agrees(&c2, &[], &l.words(&[], extra));
        }
        /// texts of many packets; the first and last bytes of each packet are arbitrary
        pub fn long() {
            let l = $lay;
            let k = 2 + choose(8) as usize;
            let n = k * l.per - [0, 1, l.per - 1][choose(3) as usize];
            let mut b = vec![b'x'; n];
            for i in 0..n {
                if i % l.per == 0 || i % l.per == l.per - 1 {
                    b[i] = bits(7) as u8;
                    assume(b[i] != 0);
                }
            }
            let t = unsafe { String::from_utf8_unchecked(b) };
            let mut m = $T::<Vec<u32>>::new();
            m.$set(&t);
            let extra = $hdr!(m);
            cover("long");
            let want = l.words(t.as_bytes(), extra);
            agrees(&m, t.as_bytes(), &want);
            $reads!(m, extra);
            reparse(m.data(), t.as_bytes(), extra);
            let it = m.packets();
            crate::packet_laws!(it, want, 4);
        }
        /// other things behind the message in its buffer are no business of its setters
        pub fn beside() {
            let l = $lay;
            let t = simple_text([0, l.per, l.per + 1][choose(3) as usize]);
            let e0 = $hdr!(any);
            let mut w = l.words(t.as_bytes(), e0);
            let len = w.len();
            // first something else, then perhaps more of the same kind
            w.push(any_u32());
            assume(w[len] >> 28 != l.ump);
            for _ in 0..[0, 3, 5, 7][choose(4) as usize] {
                w.push(any_u32());
            }
            let all = w.clone();
            let Ok(src) = $T::<&[u32]>::try_from(&w[..]) else {
                check(false, "text: parses whatever is behind it");
                return;
            };
            agrees(&src, t.as_bytes(), &all[..len]);
            if choose(2) == 0 {
                let mut m = $T::<Vec<u32>>::rebuffer_from(src);
                let extra = $hdr!(m or e0);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                $reads!(m, extra);
                check(behind(m.data(), all.len()) == &all[len..], "setters change nothing behind the message");
                cover("vector");
                let t2 = simple_text([0, l.per, l.per + 1][choose(3) as usize]);
                m.$set(&t2);
                agrees(&m, t2.as_bytes(), &l.words(t2.as_bytes(), extra));
            } else {
                let Ok(mut m) = $T::<[u32; 16]>::try_rebuffer_from(src) else {
                    check(all.len() > 16, "rebuffer: succeeds when it fits");
                    return;
                };
                let extra = $hdr!(m or e0);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                $reads!(m, extra);
                check(behind(m.data(), all.len()) == &all[len..], "setters change nothing behind the message");
                cover("array");
            }
        }
        /// messages in buffers of the user's own
        pub fn own() {
            let l = $lay;
            let len = [0, 1, 4, 9][choose(4) as usize];
            let t = simple_text([0, 1, l.per, l.per + 1][choose(4) as usize]);
            let t2 = simple_text([0, 1, l.per, l.per + 1, 2 * l.per + 1][choose(5) as usize]);
            let mut extra = $hdr!(default);
            let first = choose(2) == 0;
            if choose(2) == 0 {
                let mut m = $T::<Grow<u32>>::new_with_buffer(Grow::any(len));
                agrees(&m, &[], &l.words(&[], extra));
                if first { extra = $hdr!(m); }
                m.$set(&t);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                if !first { extra = $hdr!(m); }
                m.$set(&t2);
                agrees(&m, t2.as_bytes(), &l.words(t2.as_bytes(), extra));
                cover("grown");
            } else {
                let Ok(mut m) = $T::<Room<u32, 9>>::try_new_with_buffer(Room::any(len)) else {
                    check(false, "a new message fits");
                    return;
                };
                agrees(&m, &[], &l.words(&[], extra));
                if first { extra = $hdr!(m); }
                check(m.$try(&t).is_ok(), "text: try succeeds exactly when it fits");
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                if !first { extra = $hdr!(m); }
                let fits = 4 * l.packets(t2.len()) <= 9;
                check(m.$try(&t2).is_ok() == fits, "text: try succeeds exactly when it fits");
                cover(if fits { "room" } else { "no room" });
                let t = if fits { &t2 } else { &t };
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
            }
        }
        /// copies of messages in mutable slices
        pub fn rebuffer_mut() {
            let l = $lay;
            let n = [4, 5, 8, 9][choose(4) as usize];
            let mut junk: Vec<u32> = (0..n).map(|_| any_u32()).collect();
            let t = simple_text([0, l.per, l.per + 1][choose(3) as usize]);
            if 4 * l.packets(t.len()) > n {
                return;
            }
            let Ok(mut m) = $T::<&mut [u32]>::try_new_with_buffer(&mut junk[..]) else {
                check(false, "a new message fits");
                return;
            };
            check(m.$try(&t).is_ok(), "text: try succeeds exactly when it fits");
            let extra = $hdr!(m);
            let want = l.words(t.as_bytes(), extra);
            match choose(4) {
                0 => {
                    cover("slice");
                    let c = $T::<&[u32]>::rebuffer_from(m);
                    agrees(&c, t.as_bytes(), &want);
                    let c = $T::<Vec<u32>>::rebuffer_from(c);
                    agrees(&c, t.as_bytes(), &want);
                }
                1 => {
                    cover("vec");
                    let c = $T::<Vec<u32>>::rebuffer_from(m);
                    agrees(&c, t.as_bytes(), &want);
                }
                2 => {
                    let r = $T::<[u32; 4]>::try_rebuffer_from(m);
                    check(r.is_ok() || n > 4, "rebuffer: succeeds when it fits");
                    check(r.is_err() || want.len() <= 4, "rebuffer: fails when it does not fit");
                    if let Ok(c) = r {
                        agrees(&c, t.as_bytes(), &want);
                    }
                }
                _ => {
                    let r = $T::<[u32; 8]>::try_rebuffer_from(m);
                    check(r.is_ok() || n > 8, "rebuffer: succeeds when it fits");
                    if let Ok(c) = r {
                        cover("array");
                        agrees(&c, t.as_bytes(), &want);
                    }
                }
            }
        }
        /// characters of two, three and four bytes, also across packets
        pub fn wide() {
            let l = $lay;
            let k = 2 + choose(3) as usize;
            let n = [k, l.per, l.per + k - 1, 2 * l.per + 1][choose(4) as usize];
            let at = [0, l.per - 3, l.per - 2, l.per - 1, n - k][choose(5) as usize];
            if at + k > n {
                return;
            }
            let mut b = simple_text(n).into_bytes();
            let c = char::from_u32(bits(21) as u32);
            assume(c.is_some());
            let Some(c) = c else { return };
            assume(match k {
                2 => (c as u32) >= 0x80 && (c as u32) < 0x800,
                3 => (c as u32) >= 0x800 && (c as u32) < 0x10000,
                _ => (c as u32) >= 0x10000,
            });
            let c = c as u32;
            b[at] = [0xc0, 0xe0, 0xf0][k - 2] | (c >> (6 * (k - 1))) as u8;
            for j in 1..k {
                b[at + j] = 0x80 | (c >> (6 * (k - 1 - j))) as u8 & 0x3f;
            }
            let t = unsafe { String::from_utf8_unchecked(b) };
            cover(["two", "three", "four"][k - 2]);
            if choose(2) == 0 {
                let mut m = $T::<Vec<u32>>::new();
                m.$set(&t);
                let extra = $hdr!(m);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                reparse(m.data(), t.as_bytes(), extra);
            } else {
                let mut m = $T::<[u32; 12]>::new();
                check(m.$try(&t).is_ok(), "text: try succeeds exactly when it fits");
                let extra = $hdr!(m);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                reparse(m.data(), t.as_bytes(), extra);
            }
        }
        pub const MORE: [fn(); 5] = [long, beside, own, rebuffer_mut, wide];
        /// messages in borrowed buffers
        pub fn borrowed() {
            let l = $lay;
            let mut junk: Vec<u32> = vec![];
            for _ in 0..[0, 3, 4, 7, 9][choose(5) as usize] {
                junk.push(any_u32());
            }
            let n = junk.len();
            let t = simple_text([0, 1, l.per, l.per + 1][choose(4) as usize]);
            if choose(2) == 0 {
                let mut m = $T::<&mut Vec<u32>>::new_with_buffer(&mut junk);
                let mut extra = $hdr!(default);
                agrees(&m, &[], &l.words(&[], extra));
                m.$set(&t);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                extra = $hdr!(m);
                agrees(&m, t.as_bytes(), &l.words(t.as_bytes(), extra));
                cover("vector");
            } else {
                let Ok(mut m) = $T::<&mut [u32]>::try_new_with_buffer(&mut junk[..]) else {
                    check(n < 4, "a new message fits");
                    cover("slice too short");
                    return;
                };
                check(n >= 4, "a new message does not fit");
                let mut extra = $hdr!(default);
                agrees(&m, &[], &l.words(&[], extra));
                let fits = 4 * l.packets(t.len()) <= n;
                check(m.$try(&t).is_ok() == fits, "text: try succeeds exactly when it fits");
                let t = if fits { t.as_bytes() } else { &[] };
                agrees(&m, t, &l.words(t, extra));
                extra = $hdr!(m);
                agrees(&m, t, &l.words(t, extra));
                cover("slice");
            }
        }
        /// any headers; text bytes concrete but for two which are next to each other
        pub fn parse(maxn: usize) {
            let l = $lay;
            let n = choose(maxn as u32 + 1) as usize;
            let mut w: Vec<u32> = vec![0x61626364; n];
            // the free bytes: the first, the last of a packet, or across packets
            let at = [l.lead, 3 + l.lead, 14, 15][choose(4) as usize];
            let x = any_u8();
            let y = any_u8();
            let second = if at == 15 { 16 + l.lead } else { at + 1 };
            if at / 4 < n {
                crate::sx::put_octet(&mut w, at, x);
            }
            if second / 4 < n {
                crate::sx::put_octet(&mut w, second, y);
            }
            for p in 0..(n + 3) / 4 {
                // everything in front of the text is arbitrary
                let mask = if l.lead == 4 { u32::MAX } else { u32::MAX << (32 - 8 * l.lead) };
                w[4 * p] = any_u32() & mask | w[4 * p] & !mask;
            }
            let mut k = 0;
            while 4 * k < n && w[4 * k] >> 28 == l.ump {
                k += 1;
            }
            let mut good = k > 0 && 4 * k <= n;
            if good {
                let same = $hdr!(same) | 0xf << 28;
                for p in 0..k {
                    let h = w[4 * p];
                    good &= h >> l.fmt & 3 == format(p, k);
                    good &= h & $hdr!(status) == l.head;
                    good &= h & same == w[0] & same;
                }
                // the two free bytes as UTF-8, all others being letters
                let two = second < 16 * k;
                let ascii = x < 0x80 && (!two || y < 0x80);
                let wide = two && x >= 0xc2 && x < 0xe0 && y >= 0x80 && y < 0xc0;
                good &= ascii | wide;
            }
            match $T::<&[u32]>::try_from(&w[..]) {
                Ok(m) => {
                    cover("parsed");
                    check(good, "text: rejects what is not one well formed message");
                    if !good {
                        return;
                    }
                    check(m.data() == &w[..4 * k], "text: data is the message");
                    $reads!(m, w[0]);
                    let mut it = m.$bytes();
                    for i in 0..16 * k {
                        let o = crate::sx::octet(&w, i);
                        if i % 16 >= l.lead && o != 0 {
                            check(it.next() == Some(o), "text: bytes in order");
                        }
                    }
                    check(it.next().is_none(), "text: ends after the last byte");
                    let mut it = m.packets();
                    for p in 0..k {
                        match it.next() {
                            Some(q) => check(&*q == &w[4 * p..4 * p + 4], "packets: the words of the packet"),
                            None => check(false, "packets: one for every packet"),
                        }
                    }
                    check(it.next().is_none(), "packets: no more than there are");
                }
                Err(_) => check(!good, "text: accepts every well formed message"),
            }
        }
    };
}
macro_rules! flex_hdr {
    (default) => { 1 << 20 };
    (same) => { 0x0f00_0000 };
    (status) => { 0xffff };
    (any) => {{
        let c = bits(4) as u32;
        (bits(4) as u32) << 24 | if choose(2) == 1 { 1 << 20 } else { c << 16 }
    }};
    // only some of them
    ($m:ident or $e:expr) => {{
        match choose(3) {
            0 => {
                let g = bits(4) as u8;
                $m.set_group(u4::new(g));
                $e & !0x0f00_0000 | (g as u32) << 24
            }
            1 => {
                let c = if choose(2) == 1 { Some(bits(4) as u8) } else { None };
                $m.set_optional_channel(c.map(u4::new));
                // the channel of a message which has none is not specified
                match c {
                    Some(c) => $e & !0x003f_0000 | (c as u32) << 16,
                    None => $m.data()[0] & 0x000f_0000 | $e & !0x003f_0000 | 1 << 20,
                }
            }
            _ => flex_hdr!($m),
        }
    }};
    ($m:ident) => {{
        let g = bits(4) as u8;
        $m.set_group(u4::new(g));
        let c = if choose(2) == 1 { Some(bits(4) as u8) } else { None };
        $m.set_optional_channel(c.map(u4::new));
        (g as u32) << 24 | c.map_or(1 << 20, |c| (c as u32) << 16)
    }};
}
macro_rules! flex_reads {
    ($m:ident, $extra:expr) => {{
        let x: u32 = $extra;
        check(u8::from($m.group()) as u32 == x >> 24 & 15, "group of the message");
        let c = if x >> 20 & 3 == 0 { Some((x >> 16 & 15) as u8) } else { None };
        check($m.optional_channel().map(u8::from) == c, "channel of the message");
    }};
}
macro_rules! stream_hdr {
    (default) => { 0 };
    (same) => { 0 };
    (status) => { 0x03ff_0000 };
    (any) => { 0 };
    ($m:ident or $e:expr) => { 0 };
    ($m:ident) => { 0 };
}
macro_rules! stream_reads {
    ($m:ident, $extra:expr) => {{}};
}
macro_rules! block_hdr {
    (default) => { 0 };
    (same) => { 0xff00 };
    (status) => { 0x03ff_0000 };
    (any) => { (any_u8() as u32) << 8 };
    ($m:ident or $e:expr) => { block_hdr!($m) };
    ($m:ident) => {{
        let b = any_u8();
        $m.set_function_block(b);
        (b as u32) << 8
    }};
}
macro_rules! block_reads {
    ($m:ident, $extra:expr) => {{
        let x: u32 = $extra;
        check($m.function_block() as u32 == x >> 8 & 255, "function block of the message");
    }};
}
macro_rules! flex_text {
    ($($f:ident $T:ident $bank:literal $status:literal $set:ident $try:ident $get:ident $bytes:ident;)*) => {
        $(mod $f {
            use super::*;
            use midi2::flex_data::{$T, FlexDataMessage};
            const L: Lay = flex($bank, $status);
            text_ops!($T L, flex_hdr, flex_reads2, $set $try $get $bytes);
        })*
        const FLEX: &[(fn(usize), fn(usize), fn(usize), fn(usize), fn())] =
            &[$(($f::vec, $f::array::<9>, $f::array::<12>, $f::parse, $f::borrowed)),*];
        const FLEX_MORE: &[[fn(); 5]] = &[$($f::MORE),*];
        const FLEX_N: u32 = FLEX.len() as u32;
    };
}
macro_rules! flex_reads2 {
    ($m:ident, $extra:expr) => {{
        flex_reads!($m, $extra);
        check($m.status() as u32 == L.head & 255, "status of the message");
        let want = match L.head >> 8 {
            0 => midi2::flex_data::Bank::SetupAndPerformance,
            1 => midi2::flex_data::Bank::MetadataText,
            _ => midi2::flex_data::Bank::PerformanceText,
        };
        check($m.bank() == want, "bank of the message");
    }};
}
flex_text! {
    unknown_metadata UnknownMetadataText 1 0 set_text try_set_text text text_bytes;
    project ProjectName 1 1 set_text try_set_text text text_bytes;
    composition CompositionName 1 2 set_text try_set_text text text_bytes;
    clip MidiClipName 1 3 set_text try_set_text text text_bytes;
    copyright CopyrightNotice 1 4 set_text try_set_text text text_bytes;
    composer ComposerName 1 5 set_name try_set_name name name_bytes;
    lyricist LyricistName 1 6 set_text try_set_text text text_bytes;
    arranger ArrangerName 1 7 set_text try_set_text text text_bytes;
    publisher PublisherName 1 8 set_text try_set_text text text_bytes;
    primary PrimaryPerformerName 1 9 set_text try_set_text text text_bytes;
    accompanying AccompanyingPerformerName 1 0xa set_text try_set_text text text_bytes;
    date RecordingDate 1 0xb set_text try_set_text text text_bytes;
    location RecordingLocation 1 0xc set_text try_set_text text text_bytes;
    unknown_performance UnknownPerformanceText 2 0 set_text try_set_text text text_bytes;
    lyrics Lyrics 2 1 set_text try_set_text text text_bytes;
    language LyricsLanguage 2 2 set_text try_set_text text text_bytes;
    ruby Ruby 2 3 set_text try_set_text text text_bytes;
    ruby_language RubyLanguage 2 4 set_text try_set_text text text_bytes;
}
mod endpoint {
    use super::*;
    use midi2::ump_stream::EndpointName;
    const L: Lay = stream(3, 0);
    text_ops!(EndpointName L, stream_hdr, stream_reads, set_name try_set_name name name_bytes);
}
mod product {
    use super::*;
    use midi2::ump_stream::ProductInstanceId;
    const L: Lay = stream(4, 0);
    text_ops!(ProductInstanceId L, stream_hdr, stream_reads, set_id try_set_id id id_bytes);
}
mod block {
    use super::*;
    use midi2::ump_stream::FunctionBlockName;
    const L: Lay = stream(0x12, 1);
    text_ops!(FunctionBlockName L, block_hdr, block_reads, set_name try_set_name name name_bytes);
}
const STREAM: &[(fn(usize), fn(usize), fn(usize), fn(usize), fn())] = &[
    (endpoint::vec, endpoint::array::<9>, endpoint::array::<12>, endpoint::parse, endpoint::borrowed),
    (product::vec, product::array::<9>, product::array::<12>, product::parse, product::borrowed),
    (block::vec, block::array::<9>, block::array::<12>, block::parse, block::borrowed),
];
const STREAM_MORE: &[[fn(); 5]] = &[endpoint::MORE, product::MORE, block::MORE];

crate::harnesses! {
fn flex_long() { FLEX_MORE[choose(FLEX_N) as usize][0]() }
fn flex_beside() { FLEX_MORE[choose(FLEX_N) as usize][1]() }
fn flex_own() { FLEX_MORE[choose(FLEX_N) as usize][2]() }
fn flex_rebuffer_mut() { FLEX_MORE[choose(FLEX_N) as usize][3]() }
fn flex_wide() { FLEX_MORE[choose(FLEX_N) as usize][4]() }
fn names_long() { STREAM_MORE[choose(3) as usize][0]() }
fn names_beside() { STREAM_MORE[choose(3) as usize][1]() }
fn names_own() { STREAM_MORE[choose(3) as usize][2]() }
fn names_rebuffer_mut() { STREAM_MORE[choose(3) as usize][3]() }
fn names_wide() { STREAM_MORE[choose(3) as usize][4]() }
fn flex_vec() { FLEX[choose(FLEX_N) as usize].0(3) }
fn flex_arrays() { FLEX[choose(FLEX_N) as usize].1(0) }
fn flex_array9_lyricist() { lyricist::array::<9>(3) }
fn flex_array12_lyrics() { lyrics::array::<12>(3) }
fn flex_array9() { FLEX[choose(FLEX_N) as usize].1(3) }
fn flex_array12() { FLEX[choose(FLEX_N) as usize].2(3) }
fn flex_borrowed() { FLEX[choose(FLEX_N) as usize].4() }
fn names_borrowed() { STREAM[choose(3) as usize].4() }
fn flex_parse() { FLEX[choose(FLEX_N) as usize].3(9) }
fn names_vec() { STREAM[choose(3) as usize].0(3) }
fn names_array9() { STREAM[choose(3) as usize].1(3) }
fn names_array12() { STREAM[choose(3) as usize].2(3) }
fn names_parse() { STREAM[choose(3) as usize].3(9) }
}
