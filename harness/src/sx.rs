//! System exclusive messages: what the harnesses of `sysex7` and `sysex8` share.
#![allow(dead_code)]
use crate::sym::*;
use midi2::buffer::*;
use midi2::prelude::*;
use midi2::ux::u7;

pub trait Kind {
    type Byte: Copy + PartialEq;
    const PER: usize;
    const STRIDE: usize;
    const TYPE: u32;
    const NAME: &'static str;
    fn b(v: u8) -> Self::Byte;
    fn u(v: Self::Byte) -> u8;
}
pub struct K7;
pub struct K8;
impl Kind for K7 {
    type Byte = u7;
    const PER: usize = 6;
    const STRIDE: usize = 2;
    const TYPE: u32 = 3;
    const NAME: &'static str = "sysex7";
    #[inline(always)]
    fn b(v: u8) -> u7 {
        u7::new(v)
    }
    #[inline(always)]
    fn u(v: u7) -> u8 {
        v.into()
    }
}
impl Kind for K8 {
    type Byte = u8;
    const PER: usize = 13;
    const STRIDE: usize = 4;
    const TYPE: u32 = 5;
    const NAME: &'static str = "sysex8";
    #[inline(always)]
    fn b(v: u8) -> u8 {
        v
    }
    #[inline(always)]
    fn u(v: u8) -> u8 {
        v
    }
}
/// The `Debug` text of a value whose type has no public path.
pub fn shows(v: &dyn core::fmt::Debug, want: &str) -> bool {
    struct W([u8; 40], usize);
    impl core::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            for b in s.bytes() {
                if self.1 < 40 {
                    self.0[self.1] = b;
                    self.1 += 1;
                }
            }
            Ok(())
        }
    }
    let mut w = W([0; 40], 0);
    let _ = core::fmt::write(&mut w, format_args!("{v:?}"));
    &w.0[..w.1] == want.as_bytes()
}
/// octet `i` of a sequence of words
#[inline(always)]
pub fn octet(w: &[u32], i: usize) -> u8 {
    (w[i / 4] >> (24 - 8 * (i % 4))) as u8
}
pub fn put_octet(w: &mut [u32], i: usize, v: u8) {
    let s = 24 - 8 * (i % 4);
    w[i / 4] = w[i / 4] & !(0xff << s) | (v as u32) << s;
}
#[inline(always)]
pub fn any_byte<K: Kind>() -> u8 {
    if K::TYPE == 3 {
        bits(7) as u8
    } else {
        bits(8) as u8
    }
}
/// where the payload of a packet starts
pub const fn lead<K: Kind>() -> usize {
    if K::TYPE == 3 {
        2
    } else {
        3
    }
}
/// the count field of a packet holding `n` bytes
pub const fn count<K: Kind>(n: usize) -> u32 {
    if K::TYPE == 3 {
        n as u32
    } else {
        n as u32 + 1
    }
}
pub fn size_of<K: Kind>(payload: usize) -> usize {
    if payload == 0 {
        K::STRIDE
    } else {
        (payload + K::PER - 1) / K::PER * K::STRIDE
    }
}

/// A state of a message: what it says.
pub struct State {
    pub words: Vec<u32>,
    pub payload: Vec<u8>,
    pub group: u8,
    pub stream: u8,
}

/// An arbitrary valid message of 1..=`maxp` packets; the packet sizes are
/// taken from `sizes`, everything else (also unused octets) is arbitrary.
pub fn arb<K: Kind>(maxp: u32, sizes: &[u8]) -> State {
    let p = 1 + choose(maxp) as usize;
    let n: Vec<u8> = (0..p).map(|_| sizes[choose(sizes.len() as u32) as usize]).collect();
    arb_of::<K>(&n)
}
/// An arbitrary valid message of packets of these sizes.
pub fn arb_of<K: Kind>(sizes: &[u8]) -> State {
    let p = sizes.len();
    let group = bits(4) as u8;
    let stream = if K::TYPE == 5 { any_u8() } else { 0 };
    let mut words = vec![];
    let mut payload = vec![];
    for i in 0..p {
        let n = sizes[i] as usize;
        let status = if p == 1 {
            0
        } else if i == 0 {
            1
        } else if i + 1 == p {
            3
        } else {
            2
        };
        let base = words.len();
        for _ in 0..K::STRIDE {
            words.push(any_u32());
        }
        let h = K::TYPE << 28 | (group as u32) << 24 | status << 20 | count::<K>(n) << 16;
        words[base] = words[base] & 0xffff | h;
        if K::TYPE == 5 {
            words[base] = words[base] & 0xffff_00ff | (stream as u32) << 8;
        }
        for j in 0..K::PER {
            let at = lead::<K>() + j;
            let v = octet(&words[base..], at);
            let v = if K::TYPE == 3 { v & 0x7f } else { v };
            put_octet(&mut words[base..], at, v);
            if j < n {
                payload.push(v);
            }
        }
    }
    State { words, payload, group, stream }
}
/// A payload of `n` arbitrary bytes
pub fn arb_bytes<K: Kind>(n: usize) -> Vec<u8> {
    (0..n).map(|_| any_byte::<K>()).collect()
}

/// The words are the one minimal encoding of this payload.
pub fn well_formed<K: Kind>(d: &[u32], payload: &[u8], group: u8, stream: u8) {
    let n = size_of::<K>(payload.len());
    check(d.len() == n, "edit: the message has exactly the packets its payload needs");
    if d.len() != n {
        return;
    }
    let packets = n / K::STRIDE;
    for p in 0..packets {
        let w = &d[p * K::STRIDE..][..K::STRIDE];
        let status = if packets == 1 {
            0
        } else if p == 0 {
            1
        } else if p + 1 == packets {
            3
        } else {
            2
        };
        let left = payload.len() - p * K::PER;
        let here = if left > K::PER { K::PER } else { left };
        check(w[0] >> 28 == K::TYPE, "edit: packets have the message type");
        check(w[0] >> 24 & 15 == group as u32, "edit: packets carry the group");
        check(w[0] >> 20 & 15 == status, "edit: packets have the right status");
        check(w[0] >> 16 & 15 == count::<K>(here), "edit: packets are filled");
        if K::TYPE == 5 {
            check(w[0] >> 8 & 255 == stream as u32, "edit: packets carry the stream id");
        }
        for j in 0..here {
            check(octet(w, lead::<K>() + j) == payload[p * K::PER + j], "edit: payload bytes");
        }
    }
}
pub fn well_formed_bytes(d: &[u8], payload: &[u8]) {
    check(d.len() == payload.len() + 2, "edit: the message has exactly the bytes its payload needs");
    if d.len() != payload.len() + 2 {
        return;
    }
    check(d[0] == 0xf0, "edit: starts with F0");
    check(d[d.len() - 1] == 0xf7, "edit: ends with F7");
    for i in 0..payload.len() {
        check(d[i + 1] == payload[i], "edit: payload bytes");
    }
}

/// the payload accessors agree with `want`
pub fn reads<K: Kind, B: Buffer, M: Sysex<B, Byte = K::Byte>>(m: &M, want: &[u8]) {
    check(m.payload_size() == want.len(), "payload_size is the number of payload bytes");
    let mut it = m.payload();
    for w in want {
        check(it.next().map(K::u) == Some(*w), "payload yields the bytes in order");
    }
    check(it.next().is_none(), "payload ends after the last byte");
}

/// An iterator with a size hint of choice (all of them lawful).
#[derive(Clone)]
pub struct Hinted<'a, K: Kind> {
    pub data: &'a [u8],
    pub at: usize,
    pub mode: u32,
    pub k: core::marker::PhantomData<K>,
}
impl<'a, K: Kind> Hinted<'a, K> {
    pub fn new(data: &'a [u8], mode: u32) -> Self {
        Hinted { data, at: 0, mode, k: core::marker::PhantomData }
    }
}
impl<K: Kind> Iterator for Hinted<'_, K> {
    type Item = K::Byte;
    fn next(&mut self) -> Option<K::Byte> {
        let r = self.data.get(self.at).map(|b| K::b(*b));
        if r.is_some() {
            self.at += 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.data.len() - self.at;
        match self.mode {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (0, Some(left + 3)),
            _ => (left, None),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Splice,
    Set,
    Append,
    Insert,
    AppendByte,
    SetByte,
}
pub struct Edit {
    pub op: Op,
    pub lo: usize,
    pub hi: usize,
    pub data: Vec<u8>,
    pub hint: u32,
    /// which way of writing the range
    pub range: u32,
}
/// An edit of a payload of `len` bytes with 0..=`maxd` new bytes, and its result.
pub fn arb_edit<K: Kind>(op: Op, cur: &[u8], maxd: usize, spans: usize) -> (Edit, Vec<u8>) {
    let len = cur.len();
    let (lo, hi) = match op {
        Op::Splice => {
            let lo = choose(len as u32 + 1) as usize;
            // the span: short ones, and up to the end
            let left = len - lo;
            let span = if left <= spans {
                choose(left as u32 + 1) as usize
            } else {
                let s = choose(spans as u32 + 1) as usize;
                if s == spans {
                    left
                } else {
                    s
                }
            };
            (lo, lo + span)
        }
        Op::Set => (0, len),
        Op::Append | Op::AppendByte => (len, len),
        Op::Insert => {
            let i = choose(len as u32 + 1) as usize;
            (i, i)
        }
        Op::SetByte => {
            if len == 0 {
                (0, 0)
            } else {
                let i = choose(len as u32) as usize;
                (i, i + 1)
            }
        }
    };
    let n = match op {
        Op::AppendByte => 1,
        Op::SetByte => hi - lo,
        _ => choose(maxd as u32 + 1) as usize,
    };
    let data = arb_bytes::<K>(n);
    let mut want = cur[..lo].to_vec();
    want.extend_from_slice(&data);
    want.extend_from_slice(&cur[hi..]);
    let hint = match op {
        Op::AppendByte | Op::SetByte => 0,
        _ => choose(4),
    };
    let range = if op == Op::Splice { choose(2) } else { 0 };
    (Edit { op, lo, hi, data, hint, range }, want)
}

pub type Bnd = (core::ops::Bound<usize>, core::ops::Bound<usize>);
impl Edit {
    pub fn bounds(&self, len: usize) -> Bnd {
        use core::ops::Bound::*;
        if self.range == 0 {
            return (Included(self.lo), Excluded(self.hi));
        }
        (
            if self.lo == 0 { Unbounded } else { Excluded(self.lo - 1) },
            if self.hi == len {
                Unbounded
            } else if self.hi == 0 {
                Excluded(0)
            } else {
                Included(self.hi - 1)
            },
        )
    }
    pub fn apply<K: Kind, B: BufferMut + BufferResize, M: Sysex<B, Byte = K::Byte>>(&self, m: &mut M, len: usize) {
        let data = Hinted::<K>::new(&self.data, self.hint);
        match self.op {
            Op::Splice => m.splice_payload(data, self.bounds(len)),
            Op::Set => m.set_payload(data),
            Op::Append => m.append_payload(data),
            Op::Insert => m.insert_payload(data, self.lo),
            Op::AppendByte => m.append_byte(K::b(self.data[0])),
            Op::SetByte => {
                if len > 0 {
                    m.set_byte(K::b(self.data[0]), self.lo)
                }
            }
        }
    }
    pub fn try_apply<K: Kind, B: BufferMut + BufferTryResize, M: Sysex<B, Byte = K::Byte>>(
        &self,
        m: &mut M,
        len: usize,
    ) -> bool {
        let data = Hinted::<K>::new(&self.data, self.hint);
        match self.op {
            Op::Splice => m.try_splice_payload(data, self.bounds(len)).is_ok(),
            Op::Set => m.try_set_payload(data).is_ok(),
            Op::Append => m.try_append_payload(data).is_ok(),
            Op::Insert => m.try_insert_payload(data, self.lo).is_ok(),
            Op::AppendByte => m.try_append_byte(K::b(self.data[0])).is_ok(),
            Op::SetByte => {
                if len > 0 {
                    m.set_byte(K::b(self.data[0]), self.lo)
                }
                true
            }
        }
    }
}
pub fn arb_op() -> Op {
    match choose(6) {
        0 => Op::Splice,
        1 => Op::Set,
        2 => Op::Append,
        3 => Op::Insert,
        4 => Op::AppendByte,
        _ => Op::SetByte,
    }
}

/// lengths to start from: all of them if few
pub fn some_size(n: u32) -> usize {
    if n <= 14 {
        return choose(n) as usize;
    }
    match choose(7) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => n as usize / 2,
        4 => n as usize / 2 + 1,
        5 => n as usize - 2,
        _ => n as usize - 1,
    }
}
pub enum Parsed {
    Yes(usize, Vec<u8>),
    /// ends in an incomplete packet
    Cut,
    No,
}
/// What the specification says about these words.
pub fn ref_parse<K: Kind>(w: &[u32]) -> Parsed {
    let mut k = 0;
    while (k + 1) * K::STRIDE <= w.len() && w[k * K::STRIDE] >> 28 == K::TYPE {
        k += 1;
    }
    if k == 0 {
        return Parsed::No;
    }
    let mut payload = vec![];
    for p in 0..k {
        let h = w[p * K::STRIDE];
        let status = if k == 1 {
            0
        } else if p == 0 {
            1
        } else if p + 1 == k {
            3
        } else {
            2
        };
        if h >> 20 & 15 != status || h >> 24 & 15 != w[0] >> 24 & 15 {
            return Parsed::No;
        }
        if K::TYPE == 5 && h >> 8 & 255 != w[0] >> 8 & 255 {
            return Parsed::No;
        }
        let mut n = concrete((h >> 16 & 15) as u64) as usize;
        if K::TYPE == 5 {
            if n == 0 {
                return Parsed::No;
            }
            n -= 1;
        }
        if n > K::PER {
            return Parsed::No;
        }
        for j in 0..n {
            let v = octet(&w[p * K::STRIDE..], lead::<K>() + j);
            payload.push(if K::TYPE == 3 { v & 0x7f } else { v });
        }
    }
    if k * K::STRIDE < w.len() && w[k * K::STRIDE] >> 28 == K::TYPE {
        return Parsed::Cut;
    }
    Parsed::Yes(k * K::STRIDE, payload)
}
/// `it` yields `want`; advanced by `skip` steps and then jumping
#[macro_export]
macro_rules! iter_laws {
    ($it:ident, $want:expr, $skip:expr, $u:expr) => {
        let want = &$want[..];
        let mut at = 0usize;
        for _ in 0..$skip {
            let r = $it.next().map($u);
            check(r == want.get(at).copied(), "iterator: next yields the bytes in order");
            if at < want.len() {
                at += 1;
            }
        }
        let left = want.len() - at;
        check($it.len() == left, "iterator: len is what is left");
        check($it.size_hint() == (left, Some(left)), "iterator: size_hint is exact");
        match choose(4) {
            0 => {
                cover("count");
                check($it.count() == left, "iterator: count is what is left");
            }
            1 => {
                cover("last");
                let l = $it.last().map($u);
                check(l == if left == 0 { None } else { want.last().copied() }, "iterator: last");
            }
            2 => {
                // any jump: one of those which stay inside, or any larger
                let inside = choose(left as u32 + 1) as usize;
                let n = if inside < left { inside } else { bits(64) as usize };
                assume(inside < left || n >= left);
                let r = $it.nth(n).map($u);
                if n < left {
                    cover("nth inside");
                    check(r == Some(want[at + n]), "iterator: nth yields the right byte");
                    at += n + 1;
                } else {
                    cover("nth past the end");
                    check(r.is_none(), "iterator: nth past the end yields nothing");
                    at = want.len();
                }
                let left = want.len() - at;
                check($it.len() == left, "iterator: len after nth");
                check($it.size_hint() == (left, Some(left)), "iterator: size_hint after nth");
                let again = choose(3) as usize;
                if again < 2 {
                    let r = $it.nth(again).map($u);
                    check(r == want.get(at + again).copied(), "iterator: nth after nth");
                    at = if at + again < want.len() { at + again + 1 } else { want.len() };
                    check($it.len() == want.len() - at, "iterator: len after nth");
                }
                let r = $it.next().map($u);
                check(r == want.get(at).copied(), "iterator: next after nth");
            }
            _ => {
                cover("rest");
                let mut it = $it;
                while at < want.len() {
                    check(it.next().map($u) == Some(want[at]), "iterator: next yields the rest");
                    at += 1;
                }
                check(it.next().is_none() && it.next().is_none(), "iterator: stays finished");
            }
        }
    };
}
/// `it` yields the packets of `stride` words that make up `want`
#[macro_export]
macro_rules! packet_laws {
    ($it:ident, $want:expr, $stride:expr) => {
        let want: Vec<&[u32]> = $want.chunks($stride).collect();
        let k = want.len();
        let mut it = $it;
        let mut at = [0, 1, 2, k][choose(4) as usize].min(k);
        for i in 0..at {
            check(it.next().as_deref() == Some(want[i]), "packets: in order");
        }
        check(it.len() == k - at && it.size_hint() == (k - at, Some(k - at)), "packets: len");
        match choose(4) {
            0 => {
                cover("packets count");
                check(it.count() == k - at, "packets: count");
            }
            1 => {
                cover("packets last");
                check(it.last().as_deref() == want[at..].last().copied(), "packets: last");
            }
            2 => {
                let left = k - at;
                let inside = choose(left as u32 + 1) as usize;
                let n = if inside < left { inside } else { bits(64) as usize };
                assume(inside < left || n >= left);
                let r = it.nth(n);
                check(r.as_deref() == if inside < left { Some(want[at + inside]) } else { None }, "packets: nth");
                cover(if inside < left { "packets nth" } else { "packets nth past the end" });
                at = (at + inside + 1).min(k);
                check(it.len() == k - at, "packets: len after nth");
                let r = it.nth(1);
                check(r.as_deref() == want.get(at + 1).copied(), "packets: nth after nth");
                at = (at + 2).min(k);
                check(it.next().as_deref() == want.get(at).copied(), "packets: next after nth");
            }
            _ => {
                cover("packets rest");
                while at < k {
                    check(it.next().as_deref() == Some(want[at]), "packets: the rest");
                    at += 1;
                }
                check(it.next().is_none() && it.next().is_none() && it.len() == 0, "packets: stays finished");
            }
        }
    };
}
#[macro_export]
macro_rules! sx_ump { ($K:ty, $S:ident, $sizes:expr) => {
fn vec_ump(s: &State) -> Option<$S<Vec<u32>>> {
    match $S::<&[u32]>::try_from(&s.words[..]) {
        Ok(m) => Some($S::<Vec<u32>>::rebuffer_from(m)),
        Err(_) => {
            check(false, "a well formed message parses");
            None
        }
    }
}

fn edit_vec(op: Op, maxp: u32, sizes: &[u8], maxd: usize, spans: usize) {
    let s = arb::<$K>(maxp, sizes);
    let Some(mut m) = vec_ump(&s) else { return };
    let (e, want) = arb_edit::<$K>(op, &s.payload, maxd, spans);
    e.apply::<$K, _, _>(&mut m, s.payload.len());
    cover("edited");
    reads::<$K, _, _>(&m, &want);
    check(u8::from(m.group()) == s.group, "edit: group unchanged");
    check(stream(&m) == s.stream, "edit: stream id unchanged");
    if op == Op::SetByte {
        check(m.data().len() == s.words.len(), "set_byte keeps the packets");
    } else {
        well_formed::<$K>(m.data(), &want, s.group, s.stream);
    }
    check($S::<&[u32]>::try_from(m.data()).is_ok(), "edit: the message parses");
}

fn edit_array<const N: usize>(op: Op, maxp: u32, sizes: &[u8], maxd: usize, spans: usize) {
    let s = arb::<$K>(maxp, sizes);
    let Ok(src) = $S::<&[u32]>::try_from(&s.words[..]) else { return };
    let Ok(mut m) = $S::<[u32; N]>::try_rebuffer_from(src) else {
        check(s.words.len() > N, "copying into a large enough array succeeds");
        return;
    };
    let (e, want) = arb_edit::<$K>(op, &s.payload, maxd, spans);
    finish_array::<N>(&mut m, &e, &want, &s)
}
fn finish_array<const N: usize>(m: &mut $S<[u32; N]>, e: &Edit, want: &[u8], s: &State) {
    let fits = size_of::<$K>(want.len()) <= N;
    let ok = e.try_apply::<$K, _, _>(m, s.payload.len());
    check(ok == fits, "try: succeeds exactly when the result fits");
    check(u8::from(m.group()) == s.group, "edit: group unchanged");
    check(stream(m) == s.stream, "edit: stream id unchanged");
    let want = if ok { want } else { &[] };
    if ok {
        cover("edited");
    } else {
        cover("did not fit");
    }
    reads::<$K, _, _>(m, want);
    if e.op != Op::SetByte {
        well_formed::<$K>(m.data(), want, s.group, s.stream);
    }
    check($S::<&[u32]>::try_from(m.data()).is_ok(), "edit: the message parses");
}
/// from a message that shares its buffer with the remains of a longer one
fn edit_dirty<const N: usize>(op: Op, maxd: usize, spans: usize) {
    let mut junk = [0u32; N];
    for w in junk.iter_mut() {
        *w = any_u32();
    }
    let Ok(mut m) = $S::<[u32; N]>::try_new_with_buffer(junk) else {
        check(N < <$K>::STRIDE, "a new message fits");
        return;
    };
    let group = bits(4) as u8;
    m.set_group(midi2::ux::u4::new(group));
    let stream_id = if <$K>::TYPE == 5 { any_u8() } else { 0 };
    set_stream(&mut m, stream_id);
    let n0 = some_size((N / <$K>::STRIDE * <$K>::PER) as u32 + 1) as usize;
    let first = arb_bytes::<$K>(n0);
    check(
        m.try_set_payload(first.iter().map(|b| <$K>::b(*b))).is_ok(),
        "try: succeeds exactly when the result fits",
    );
    let s = State { words: vec![], payload: first, group, stream: stream_id };
    let (e, want) = arb_edit::<$K>(op, &s.payload, maxd, spans);
    finish_array::<N>(&mut m, &e, &want, &s)
}

/// messages in borrowed buffers, and in vectors with something behind the message
fn edit_borrowed(op: Op, maxd: usize, spans: usize) {
    let mut junk: Vec<u32> = vec![];
    match choose(3) {
        0 => {
            // a slice
            for _ in 0..[0, <$K>::STRIDE - 1, <$K>::STRIDE, 2 * <$K>::STRIDE, 2 * <$K>::STRIDE + 1][choose(5) as usize] {
                junk.push(any_u32());
            }
            let n = junk.len();
            let Ok(mut m) = $S::<&mut [u32]>::try_new_with_buffer(&mut junk[..]) else {
                check(n < <$K>::STRIDE, "a new message fits");
                return;
            };
            check(n >= <$K>::STRIDE, "a new message does not fit");
            well_formed::<$K>(m.data(), &[], 0, 0);
            let group = bits(4) as u8;
            m.set_group(midi2::ux::u4::new(group));
            let n0 = choose((n / <$K>::STRIDE * <$K>::PER).min(3) as u32 + 1) as usize;
            let first = arb_bytes::<$K>(n0);
            check(m.try_set_payload(first.iter().map(|b| <$K>::b(*b))).is_ok(), "try: succeeds exactly when the result fits");
            let (e, want) = arb_edit::<$K>(op, &first, maxd, spans);
            let ok = e.try_apply::<$K, _, _>(&mut m, n0);
            check(ok == (size_of::<$K>(want.len()) <= n), "try: succeeds exactly when the result fits");
            cover(if ok { "slice" } else { "slice too short" });
            let want = if ok { &want[..] } else { &[] };
            reads::<$K, _, _>(&m, want);
            if op != Op::SetByte {
                well_formed::<$K>(m.data(), want, group, 0);
            }
        }
        1 => {
            // somebody else's vector
            for _ in 0..[0, 1, <$K>::STRIDE, 2 * <$K>::STRIDE + 1][choose(4) as usize] {
                junk.push(any_u32());
            }
            let mut m = $S::<&mut Vec<u32>>::new_with_buffer(&mut junk);
            well_formed::<$K>(m.data(), &[], 0, 0);
            let group = bits(4) as u8;
            m.set_group(midi2::ux::u4::new(group));
            let n0 = choose(4) as usize;
            let first = arb_bytes::<$K>(n0);
            m.set_payload(first.iter().map(|b| <$K>::b(*b)));
            let (e, want) = arb_edit::<$K>(op, &first, maxd, spans);
            e.apply::<$K, _, _>(&mut m, n0);
            cover("vector");
            reads::<$K, _, _>(&m, &want);
            if op != Op::SetByte {
                well_formed::<$K>(m.data(), &want, group, 0);
            }
        }
        _ => {
            // a copy of a buffer with more behind the message
            let s = arb::<$K>(2, &[0, 1, 2]);
            let mut w = s.words.clone();
            w.push(any_u32() & 0x0fff_ffff);
            if choose(2) == 1 {
                w.push(any_u32());
            }
            let Ok(src) = $S::<&[u32]>::try_from(&w[..]) else {
                check(false, "a well formed message parses");
                return;
            };
            let mut m = $S::<Vec<u32>>::rebuffer_from(src);
            let (e, want) = arb_edit::<$K>(op, &s.payload, maxd, spans);
            e.apply::<$K, _, _>(&mut m, s.payload.len());
            cover("more behind");
            reads::<$K, _, _>(&m, &want);
            check(u8::from(m.group()) == s.group, "edit: group unchanged");
            check(stream(&m) == s.stream, "edit: stream id unchanged");
            if op != Op::SetByte {
                well_formed::<$K>(m.data(), &want, s.group, s.stream);
            }
        }
    }
}

/// messages in buffers of the user's own, whose length changes and which hold anything
fn edit_own(op: Op, maxd: usize) {
    const N: usize = <$K>::STRIDE * 3 + 1;
    let group = bits(4) as u8;
    let n0 = [0, 1, <$K>::PER, <$K>::PER + 1, 2 * <$K>::PER + 1][choose(5) as usize];
    let first = arb_bytes::<$K>(n0);
    let len = [0, 1, <$K>::STRIDE, N][choose(4) as usize];
    if choose(2) == 0 {
        let Ok(mut m) = $S::<Room<u32, N>>::try_new_with_buffer(Room::any(len)) else {
            check(false, "a new message fits");
            return;
        };
        well_formed::<$K>(m.data(), &[], 0, 0);
        m.set_group(midi2::ux::u4::new(group));
        check(m.try_set_payload(first.iter().map(|b| <$K>::b(*b))).is_ok(), "try: succeeds exactly when the result fits");
        let (e, want) = arb_edit::<$K>(op, &first, maxd, 2);
        let ok = e.try_apply::<$K, _, _>(&mut m, n0);
        check(ok == (size_of::<$K>(want.len()) <= N), "try: succeeds exactly when the result fits");
        cover(if ok { "room" } else { "no room" });
        let want = if ok { &want[..] } else { &[] };
        reads::<$K, _, _>(&m, want);
        well_formed::<$K>(m.data(), want, group, 0);
    } else {
        let mut m = $S::<Grow<u32>>::new_with_buffer(Grow::any(len));
        well_formed::<$K>(m.data(), &[], 0, 0);
        m.set_group(midi2::ux::u4::new(group));
        m.set_payload(first.iter().map(|b| <$K>::b(*b)));
        let (e, want) = arb_edit::<$K>(op, &first, maxd, 2);
        e.apply::<$K, _, _>(&mut m, n0);
        cover("grown");
        reads::<$K, _, _>(&m, &want);
        well_formed::<$K>(m.data(), &want, group, 0);
    }
}

/// longer messages: more than one full packet removed, added or moved
fn edit_long(op: Op) {
    const PER: usize = <$K>::PER;
    let short = choose(3);
    let p = 3 + choose(2);
    let mut n = vec![PER as u8; p as usize];
    match short {
        0 => {}
        1 => n[p as usize - 1] = 1,
        _ => n[1] = 2,
    }
    let s = arb_of::<$K>(&n);
    let len = s.payload.len();
    let lo = match op {
        Op::Splice | Op::Insert => choose(len as u32 + 1) as usize,
        Op::SetByte => choose(len as u32) as usize,
        Op::Set => 0,
        _ => len,
    };
    let span = match op {
        Op::Splice => [0, 1, PER - 1, PER, PER + 1, 2 * PER - 1, 2 * PER, 2 * PER + 1, 3 * PER, len - lo][choose(10) as usize],
        Op::Set => len,
        Op::SetByte => 1,
        _ => 0,
    };
    if span > len - lo {
        return;
    }
    let d = match op {
        Op::AppendByte | Op::SetByte => 1,
        Op::Splice => [0, 1, PER][choose(3) as usize],
        _ => [0, 1, PER, 2 * PER, 2 * PER + 1, 4 * PER, 4 * PER + 1][choose(7) as usize],
    };
    let data = arb_bytes::<$K>(d);
    let mut want = s.payload[..lo].to_vec();
    want.extend_from_slice(&data);
    want.extend_from_slice(&s.payload[lo + span..]);
    let hint = if d == 0 { 0 } else { choose(2) };
    let e = Edit { op, lo, hi: lo + span, data, hint, range: 0 };
    const N: usize = <$K>::STRIDE * 5;
    if choose(2) == 0 {
        let Some(mut m) = vec_ump(&s) else { return };
        e.apply::<$K, _, _>(&mut m, len);
        cover("vector");
        reads::<$K, _, _>(&m, &want);
        if op != Op::SetByte {
            well_formed::<$K>(m.data(), &want, s.group, s.stream);
        }
    } else {
        let Ok(src) = $S::<&[u32]>::try_from(&s.words[..]) else { return };
        let Ok(mut m) = $S::<[u32; N]>::try_rebuffer_from(src) else {
            check(false, "copying into a large enough array succeeds");
            return;
        };
        finish_array::<N>(&mut m, &e, &want, &s);
        cover("array");
    }
}

/// documented panics do happen
fn beyond_ump() {
    let s = arb::<$K>(2, $sizes);
    let len = s.payload.len();
    let mut w = s.words.clone();
    w.push(any_u32() & 0x0fff_ffff | 0x4000_0000);
    const BIG: usize = <$K>::STRIDE * 4 + 1;
    let Ok(src) = $S::<&[u32]>::try_from(&w[..]) else { return };
    let more = choose(3) as usize;
    match choose(4) {
        0 => {
            let mut m = $S::<Vec<u32>>::rebuffer_from(src);
            panic_ok(true);
            m.set_byte(<$K>::b(any_byte::<$K>()), len + more);
        }
        1 => {
            let Ok(mut m) = $S::<[u32; BIG]>::try_rebuffer_from(src) else { return };
            panic_ok(true);
            m.set_byte(<$K>::b(any_byte::<$K>()), len + more);
        }
        2 => {
            let mut m = $S::<Vec<u32>>::rebuffer_from(src);
            let d = arb_bytes::<$K>(choose(3) as usize);
            panic_ok(true);
            m.insert_payload(Hinted::<$K>::new(&d, choose(4)), len + 1 + more);
        }
        _ => {
            let Ok(mut m) = $S::<[u32; BIG]>::try_rebuffer_from(src) else { return };
            let d = arb_bytes::<$K>(choose(3) as usize);
            panic_ok(true);
            let _ = m.try_insert_payload(Hinted::<$K>::new(&d, choose(4)), len + 1 + more);
        }
    }
    check(false, "an index past the payload panics");
}

/// any words at all: parsed exactly when they begin with a well formed message
fn parse(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    check_parse(&w)
}
fn check_parse(w: &[u32]) {
    let n = w.len();
    let r = $S::<&[u32]>::try_from(w);
    let want = ref_parse::<$K>(w);
    match r {
        Ok(m) => {
            cover("parsed");
            match want {
                Parsed::Yes(k, p) => {
                    check(m.data() == &w[..k], "parse: data is the message");
                    reads::<$K, _, _>(&m, &p);
                    check(u8::from(m.group()) as u32 == w[0] >> 24 & 15, "parse: group");
                    check(stream(&m) as u32 == if <$K>::TYPE == 5 { w[0] >> 8 & 255 } else { 0 }, "parse: stream id");
                }
                Parsed::Cut => {
                    let d = m.data();
                    check(d.len() <= n && d.len() % <$K>::STRIDE == 0 && d.len() > 0, "parse: data is whole packets");
                }
                Parsed::No => check(false, "parse: rejects what is not one well formed message"),
            }
        }
        Err(_) => check(!matches!(want, Parsed::Yes(..)), "parse: accepts every well formed message"),
    }
}
/// longer slices; all headers arbitrary, the rest of the payload fixed
fn parse_long(packets: u32) {
    let k = 2 + choose(packets - 1) as usize;
    let cut = choose(2) as usize;
    let n = k * <$K>::STRIDE - cut;
    let mut w: Vec<u32> = vec![0x0102_0304; n];
    for p in 0..k {
        let at = p * <$K>::STRIDE;
        if at < n {
            // status, group, stream id, and a count of choice
            let h = any_u32();
            let full = count::<$K>(<$K>::PER);
            let c = [full, count::<$K>(0), count::<$K>(1), full + 1][if p + 1 == k { choose(4) } else { choose(2) * 3 } as usize] & 15;
            w[at] = h & 0xfff0_ff7f | c << 16;
        }
    }
    check_parse(&w)
}
/// the payload iterator behaves as one over a slice of the bytes
fn iterate(maxp: u32, sizes: &[u8], trailing: u32) {
    let s = arb::<$K>(maxp, sizes);
    let mut w = s.words.clone();
    let t = choose(trailing + 1);
    for _ in 0..t {
        // what follows belongs to another message
        w.push(any_u32());
    }
    if t > 0 {
        assume(w[s.words.len()] >> 28 != <$K>::TYPE);
    }
    let Ok(m) = $S::<&[u32]>::try_from(&w[..]) else {
        check(false, "a well formed message parses whatever follows it");
        return;
    };
    let mut it = m.payload();
    if choose(2) == 1 {
        it = it.clone();
    }
    let skip = choose(s.payload.len() as u32 + 2) as usize;
    iter_laws!(it, s.payload, skip, <$K>::u);
}
/// the group and stream id setters write every packet, and nothing else
fn headers(maxp: u32, sizes: &[u8]) {
    let s = arb::<$K>(maxp, sizes);
    let mut want = s.words.clone();
    let group = bits(4) as u8;
    let stream_id = if <$K>::TYPE == 5 { any_u8() } else { 0 };
    let g = midi2::ux::u4::new(group);
    let k = want.len() / <$K>::STRIDE;
    for p in 0..k {
        let h = &mut want[p * <$K>::STRIDE];
        *h = *h & 0xf0ff_ffff | (group as u32) << 24;
        if <$K>::TYPE == 5 {
            *h = *h & 0xffff_00ff | (stream_id as u32) << 8;
        }
    }
    cover("set");
    if choose(2) == 0 {
        // other messages behind, perhaps of the same type
        let mut all = s.words.clone();
        let len = all.len();
        for _ in 0..choose(3) * <$K>::STRIDE as u32 {
            all.push(any_u32());
        }
        if all.len() > len {
            assume(all[len] >> 28 != <$K>::TYPE);
        }
        let Ok(m) = $S::<&[u32]>::try_from(&all[..]) else {
            check(false, "a well formed message parses whatever follows it");
            return;
        };
        let mut m = $S::<Vec<u32>>::rebuffer_from(m);
        m.set_group(g);
        set_stream(&mut m, stream_id);
        check(m.data() == &want[..], "setters change their field in every packet and nothing else");
        check(behind(m.data(), all.len()) == &all[len..], "setters change nothing behind the message");
        check(m.group() == g && stream(&m) == stream_id, "getters give what was set");
    } else {
        // a buffer in which other things follow the message
        const N: usize = <$K>::STRIDE * 3 + 2;
        if want.len() > N {
            return;
        }
        let mut all = [0u32; N];
        for i in 0..N {
            all[i] = if i < want.len() { s.words[i] } else { any_u32() };
        }
        if want.len() < N {
            assume(all[want.len()] >> 28 != <$K>::TYPE);
        }
        let Ok(m) = $S::<&[u32]>::try_from(&all[..]) else {
            check(false, "a well formed message parses whatever follows it");
            return;
        };
        let Ok(mut m) = $S::<[u32; N]>::try_rebuffer_from(m) else {
            check(false, "copying into a large enough array succeeds");
            return;
        };
        m.set_group(g);
        set_stream(&mut m, stream_id);
        check(m.data() == &want[..], "setters change their field in every packet and nothing else");
        check(behind(m.data(), N) == &all[want.len()..], "setters change nothing behind the message");
        check(m.group() == g && stream(&m) == stream_id, "getters give what was set");
    }
}
/// packets() yields the packets of the message one by one
fn packets(maxp: u32, sizes: &[u8]) {
    let s = arb::<$K>(maxp, sizes);
    let mut w = s.words.clone();
    for _ in 0..choose(3) {
        w.push(any_u32());
    }
    if w.len() > s.words.len() {
        assume(w[s.words.len()] >> 28 != <$K>::TYPE);
    }
    let Ok(m) = $S::<&[u32]>::try_from(&w[..]) else { return };
    let k = s.words.len() / <$K>::STRIDE;
    let mut it = m.packets();
    check(it.len() == k, "packets: one for every packet");
    let mut at = 0;
    for i in 0..k {
        let Some(p) = it.next() else {
            check(false, "packets: one for every packet");
            return;
        };
        check(it.len() == k - i - 1, "packets: len");
        check(&*p == &s.words[i * <$K>::STRIDE..][..<$K>::STRIDE], "packets: the words of the packet");
        let Ok(p) = Packet::try_from(&*p) else {
            check(false, "packets: of the right kind");
            return;
        };
        check(u8::from(p.group()) == s.group, "packets: group");
        for b in p.payload() {
            check(at < s.payload.len() && <$K>::u(b) == s.payload[at], "packets: together they hold the payload");
            at += 1;
        }
    }
    cover("packets");
    check(at == s.payload.len(), "packets: together they hold the payload");
    check(it.next().is_none(), "packets: no more than there are");
}
/// packets() as an iterator over the packets, in messages of many packets
fn packets_iterate() {
    let k = [1, 2, 3, 5, 20][choose(5) as usize];
    let mut n = vec![<$K>::PER as u8; k];
    n[k - 1] = 1;
    let s = arb_of::<$K>(&n);
    let mut w = s.words.clone();
    // the same kind of packets, but behind another message
    let t = choose(2);
    if t == 1 {
        for _ in 0..2 * <$K>::STRIDE {
            w.push(any_u32());
        }
        assume(w[s.words.len()] >> 28 != <$K>::TYPE);
    }
    let Ok(m) = $S::<&[u32]>::try_from(&w[..]) else {
        check(false, "a well formed message parses whatever follows it");
        return;
    };
    let it = m.packets();
    packet_laws!(it, s.words, <$K>::STRIDE);
}
/// a copy in another kind of buffer is the same message
fn rebuffer(maxp: u32, sizes: &[u8]) {
    let s = arb::<$K>(maxp, sizes);
    let mut w = s.words.clone();
    let t = choose(3);
    for _ in 0..t {
        w.push(any_u32());
    }
    if t > 0 {
        assume(w[s.words.len()] >> 28 != <$K>::TYPE);
    }
    let Ok(m) = $S::<&[u32]>::try_from(&w[..]) else { return };
    check(m.data() == &s.words[..], "data is the message");
    const S1: usize = <$K>::STRIDE;
    const S2: usize = <$K>::STRIDE * 2;
    const S3: usize = <$K>::STRIDE * 3 + 1;
    match choose(5) {
        0 => {
            let c = $S::<Vec<u32>>::rebuffer_from(m.clone());
            check(c.data() == &s.words[..], "rebuffer: same data");
            reads::<$K, _, _>(&c, &s.payload);
            cover("vec");
        }
        1 => {
            let r = $S::<[u32; S1]>::try_rebuffer_from(m);
            check(t > 0 || r.is_ok() == (s.words.len() <= S1), "rebuffer: succeeds exactly when it fits");
            if let Ok(c) = r {
                check(c.data() == &s.words[..], "rebuffer: same data");
            }
        }
        2 => {
            let r = $S::<[u32; S2]>::try_rebuffer_from(m);
            check(t > 0 || r.is_ok() == (s.words.len() <= S2), "rebuffer: succeeds exactly when it fits");
            if let Ok(c) = r {
                check(c.data() == &s.words[..], "rebuffer: same data");
                reads::<$K, _, _>(&c, &s.payload);
            }
        }
        3 => {
            let r = $S::<[u32; S3]>::try_rebuffer_from(m);
            check(r.is_ok() || w.len() > S3, "rebuffer: succeeds exactly when it fits");
            if let Ok(c) = r {
                check(c.data() == &s.words[..], "rebuffer: same data");
                let c = $S::<Vec<u32>>::rebuffer_from(c);
                check(c.data() == &s.words[..], "rebuffer: same data");
                reads::<$K, _, _>(&c, &s.payload);
            }
        }
        _ => {
            if s.words.len() <= S3 {
                let c = $S::<[u32; S3]>::array_rebuffer_from(m);
                check(c.data() == &s.words[..], "rebuffer: same data");
                reads::<$K, _, _>(&c, &s.payload);
                cover("array");
            }
        }
    }
}
/// copies of messages in mutable slices
fn rebuffer_mut() {
    const S1: usize = <$K>::STRIDE;
    const S2: usize = <$K>::STRIDE * 2;
    let n = [S1, S1 + 1, S2, S2 + 1][choose(4) as usize];
    let mut junk: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    let len = [0, 1, <$K>::PER, <$K>::PER + 1][choose(4) as usize];
    if size_of::<$K>(len) > n {
        return;
    }
    let p = arb_bytes::<$K>(len);
    let Ok(mut m) = $S::<&mut [u32]>::try_new_with_buffer(&mut junk[..]) else {
        check(false, "a new message fits");
        return;
    };
    check(m.try_set_payload(p.iter().map(|b| <$K>::b(*b))).is_ok(), "try: succeeds exactly when the result fits");
    let group = bits(4) as u8;
    m.set_group(midi2::ux::u4::new(group));
    match choose(4) {
        0 => {
            cover("slice");
            let c = $S::<&[u32]>::rebuffer_from(m);
            reads::<$K, _, _>(&c, &p);
            well_formed::<$K>(c.data(), &p, group, 0);
            let c = $S::<Vec<u32>>::rebuffer_from(c);
            well_formed::<$K>(c.data(), &p, group, 0);
        }
        1 => {
            cover("vec");
            let c = $S::<Vec<u32>>::rebuffer_from(m);
            reads::<$K, _, _>(&c, &p);
            well_formed::<$K>(c.data(), &p, group, 0);
        }
        2 => {
            let r = $S::<[u32; S1]>::try_rebuffer_from(m);
            check(r.is_ok() || n > S1, "rebuffer: succeeds when it fits");
            check(r.is_err() || size_of::<$K>(len) <= S1, "rebuffer: fails when it does not fit");
            if let Ok(c) = r {
                well_formed::<$K>(c.data(), &p, group, 0);
            }
        }
        _ => {
            let r = $S::<[u32; S2]>::try_rebuffer_from(m);
            check(r.is_ok() || n > S2, "rebuffer: succeeds when it fits");
            if let Ok(c) = r {
                cover("array");
                reads::<$K, _, _>(&c, &p);
                well_formed::<$K>(c.data(), &p, group, 0);
            }
        }
    }
}
/// any words: a packet exactly when they begin with one
fn packet(maxn: u32) {
    let n = choose(maxn + 1) as usize;
    let w: Vec<u32> = (0..n).map(|_| any_u32()).collect();
    let r = Packet::try_from(&w[..]);
    let mut good = n >= <$K>::STRIDE && w[0] >> 28 == <$K>::TYPE && w[0] >> 20 & 15 <= 3;
    let mut size = 0;
    let mut unexpected = false;
    if good {
        // the "unexpected end" of a sysex8 stream has no data and says why in its count
        let c = concrete((w[0] >> 16 & 15) as u64) as usize;
        unexpected = <$K>::TYPE == 5
            && w[0] >> 20 & 15 == 3
            && (c == 1 || c == 15)
            && w[0] & 255 == 0
            && w[1..<$K>::STRIDE].iter().all(|w| *w == 0);
        size = if unexpected { 0 } else { c.wrapping_sub(count::<$K>(0) as usize) };
        good = size <= <$K>::PER;
    }
    let Ok(p) = r else {
        check(!good, "packet: accepts every well formed packet");
        return;
    };
    check(good, "packet: rejects what is not one well formed packet");
    if !good {
        return;
    }
    cover("packet");
    check(&*p == &w[..<$K>::STRIDE], "packet: the words");
    check(u8::from(p.group()) as u32 == w[0] >> 24 & 15, "packet: group");
    packet_status(&p, w[0] >> 20 & 15, unexpected, w[0] >> 16 & 15);
    let mut bytes = vec![];
    for j in 0..size {
        let v = octet(&w, lead::<$K>() + j);
        bytes.push(if <$K>::TYPE == 3 { v & 0x7f } else { v });
    }
    let mut it = p.payload();
    let skip = choose(size as u32 + 2) as usize;
    iter_laws!(it, bytes, skip, <$K>::u);
    let mut q = p.clone();
    let g = bits(4) as u32;
    q.set_group(midi2::ux::u4::new(g as u8));
    check(q[0] == w[0] & 0xf0ff_ffff | g << 24, "packet: set_group writes the group only");
    check(&q[1..] == &w[1..<$K>::STRIDE], "packet: set_group writes the group only");
}
}}
