//! The wire format of every fixed size message, written from the MIDI 2.0
//! specification (and, where the crate documents its own choice, from the
//! crate's documentation), independently of the crate's property code.
//!
//! Each message is a module with the same set of functions, so that a property
//! is one function here and applies to every message.
#[allow(unused_imports)]
use crate::own::*;
use crate::sym::*;
use midi2::prelude::*;

pub type W = [u32; 4];
/// the second value of the fields held fixed in a chord name: channel 9, F flat
/// diminished with four alterations over a sharp A major ninth bass
pub const BASE: W = [0xd7090006, 0xf6132a49, 0x1c330000, 0x11044f21];

/// Values that can be made arbitrary.
pub trait Any: Clone + PartialEq {
    fn any() -> Self;
    /// the value a getter gives when there are several with the same meaning
    #[inline(always)]
    fn read(&self) -> Self {
        self.clone()
    }
}
/// Plain numbers.
pub trait Wire: Any {
    fn wire(&self) -> u32;
}
macro_rules! wire { ($($t:ty, $n:expr, |$v:ident| $to:expr, |$b:ident| $from:expr;)*) => {$(
    impl Any for $t { #[inline(always)] fn any() -> Self { let $b = bits($n); $from } }
    impl Wire for $t { #[inline(always)] fn wire(&self) -> u32 { let $v = *self; $to } }
)*}}
wire! {
    bool, 1, |v| v as u32, |b| b != 0;
    u8, 8, |v| v as u32, |b| b as u8;
    u16, 16, |v| v as u32, |b| b as u16;
    u32, 32, |v| v, |b| b as u32;
    u4, 4, |v| u8::from(v) as u32, |b| u4::new(b as u8);
    u7, 7, |v| u8::from(v) as u32, |b| u7::new(b as u8);
    u14, 14, |v| u16::from(v) as u32, |b| u14::new(b as u16);
    u20, 20, |v| u32::from(v), |b| u20::new(b as u32);
}

/// How one field sits in the four words of a message.
pub trait Layout<T> {
    /// every bit the field owns
    fn area(&self) -> W;
    /// (bits determined by this value, their values)
    fn enc(&self, v: &T) -> (W, W);
    /// is `v` what words `w` mean?
    #[inline(always)]
    fn means(&self, w: &W, v: &T) -> bool {
        let (m, e) = self.enc(v);
        masked(w, &m) == e
    }
    /// can the field's bits be interpreted at all?
    #[inline(always)]
    fn legal(&self, _w: &W) -> bool {
        true
    }
}
#[inline(always)]
pub fn masked(w: &W, m: &W) -> W {
    [w[0] & m[0], w[1] & m[1], w[2] & m[2], w[3] & m[3]]
}
#[inline(always)]
pub fn or(a: &W, b: &W) -> W {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
#[inline(always)]
pub fn not(a: &W) -> W {
    [!a[0], !a[1], !a[2], !a[3]]
}
#[inline(always)]
pub fn at(i: usize, v: u32) -> W {
    let mut w = [0; 4];
    w[i] = v;
    w
}
#[inline(always)]
fn ones(n: u32) -> u32 {
    ((1u64 << n) - 1) as u32
}

/// `n` contiguous bits of word `w` from bit `s` (least significant = 0)
pub struct B(pub usize, pub u32, pub u32);
impl<T: Wire> Layout<T> for B {
    #[inline(always)]
    fn area(&self) -> W {
        at(self.0, ones(self.2) << self.1)
    }
    #[inline(always)]
    fn enc(&self, v: &T) -> (W, W) {
        (at(self.0, ones(self.2) << self.1), at(self.0, v.wire() << self.1))
    }
}
/// a 14 bit number, low seven bits at `lo`, high seven bits at `hi`
pub struct S14(pub usize, pub u32, pub u32);
impl Layout<u14> for S14 {
    #[inline(always)]
    fn area(&self) -> W {
        at(self.0, 0x7f << self.1 | 0x7f << self.2)
    }
    #[inline(always)]
    fn enc(&self, v: &u14) -> (W, W) {
        let x = v.wire();
        (Layout::<u14>::area(self), at(self.0, (x & 0x7f) << self.1 | (x >> 7) << self.2))
    }
}
/// seven bit bytes, most significant octet first, the last one at bit 0
pub struct Sevens(pub usize);
impl<const N: usize> Any for [u7; N] {
    #[inline(always)]
    fn any() -> Self {
        core::array::from_fn(|_| u7::any())
    }
}
impl<const N: usize> Layout<[u7; N]> for Sevens {
    #[inline(always)]
    fn area(&self) -> W {
        let mut m = 0;
        for i in 0..N {
            m |= 0x7f << (8 * i);
        }
        at(self.0, m)
    }
    #[inline(always)]
    fn enc(&self, v: &[u7; N]) -> (W, W) {
        let mut x = 0;
        for i in 0..N {
            x |= v[i].wire() << (8 * (N - 1 - i));
        }
        (Layout::<[u7; N]>::area(self), at(self.0, x))
    }
}
/// a field whose values are in a table with their codes
pub struct E<T: 'static>(pub usize, pub u32, pub u32, pub &'static [(T, u32)]);
impl<T: Any> Layout<T> for E<T> {
    #[inline(always)]
    fn area(&self) -> W {
        at(self.0, ones(self.2) << self.1)
    }
    #[inline(always)]
    fn enc(&self, v: &T) -> (W, W) {
        let mut code = u32::MAX;
        for (t, c) in self.3 {
            if t == v {
                code = *c;
            }
        }
        check(code != u32::MAX, "a value outside the table");
        (self.area(), at(self.0, code << self.1))
    }
    #[inline(always)]
    fn legal(&self, w: &W) -> bool {
        let x = w[self.0] >> self.1 & ones(self.2);
        let mut ok = false;
        for (_, c) in self.3 {
            ok |= x == *c;
        }
        ok
    }
}
macro_rules! any_of { ($t:ty, $tab:ident) => {
    impl Any for $t {
        #[inline(always)]
        fn any() -> Self { $tab[choose($tab.len() as u32) as usize].0.clone() }
    }
}}

use midi2::channel_voice2::{Controller, NoteAttribute};
use midi2::flex_data::{Alteration, ChordType, Tonic};
use midi2::flex_data::{SetChordNameSharpsFlats as ChordSharps, SetKeySignatureSharpsFlats as KeySharps};
use midi2::ump_stream::{Direction, Midi1Port, UiHint};

pub static TONIC: [(Tonic, u32); 8] = [
    (Tonic::NonStandard, 0), (Tonic::A, 1), (Tonic::B, 2), (Tonic::C, 3),
    (Tonic::D, 4), (Tonic::E, 5), (Tonic::F, 6), (Tonic::G, 7),
];
any_of!(Tonic, TONIC);
pub static CHORD_SHARPS: [(ChordSharps, u32); 5] = [
    (ChordSharps::DoubleSharp, 2), (ChordSharps::Sharp, 1), (ChordSharps::Natural, 0),
    (ChordSharps::Flat, 0xF), (ChordSharps::DoubleFlat, 0xE),
];
any_of!(ChordSharps, CHORD_SHARPS);
pub static CHORD: [(ChordType, u32); 27] = {
    use ChordType::*;
    [(ClearChord, 0), (Major, 1), (Major6th, 2), (Major7th, 3), (Major9th, 4), (Major11th, 5),
    (Major13th, 6), (Minor, 7), (Minor6th, 8), (Minor7th, 9), (Minor9th, 0xA), (Minor11th, 0xB),
    (Minor13th, 0xC), (Dominant, 0xD), (Dominant9th, 0xE), (Dominant11th, 0xF),
    (Dominant13th, 0x10), (Augmented, 0x11), (Augmented7th, 0x12), (Diminished, 0x13),
    (Diminished7th, 0x14), (HalfDiminished, 0x15), (MajorMinor, 0x16), (Pedal, 0x17),
    (Power, 0x18), (Suspended2nd, 0x19), (Suspended4th, 0x1A)]
};
any_of!(ChordType, CHORD);
pub static HINT: [(UiHint, u32); 4] = [
    (UiHint::Undeclared, 0), (UiHint::Receiver, 1), (UiHint::Sender, 2), (UiHint::SenderReciever, 3),
];
any_of!(UiHint, HINT);
pub static PORT: [(Option<Midi1Port>, u32); 3] = [
    (None, 0), (Some(Midi1Port::DontRestrictBandwidth), 1), (Some(Midi1Port::RestrictBandwidth), 2),
];
any_of!(Option<Midi1Port>, PORT);
pub static DIR: [(Direction, u32); 3] = [
    (Direction::Input, 1), (Direction::Output, 2), (Direction::Bidirectional, 3),
];
any_of!(Direction, DIR);

/// chord alteration: type in the high nibble, degree in the low one
pub struct Alt(pub usize, pub u32);
impl Any for Option<Alteration> {
    #[inline(always)]
    fn any() -> Self {
        match choose(5) {
            0 => None,
            1 => Some(Alteration::Add(u4::any())),
            2 => Some(Alteration::Subtract(u4::any())),
            3 => Some(Alteration::Raise(u4::any())),
            _ => Some(Alteration::Lower(u4::any())),
        }
    }
}
impl Layout<Option<Alteration>> for Alt {
    #[inline(always)]
    fn area(&self) -> W {
        at(self.0, 0xff << self.1)
    }
    #[inline(always)]
    fn enc(&self, v: &Option<Alteration>) -> (W, W) {
        let (m, x) = match v {
            None => (0xf0, 0),
            Some(Alteration::Add(d)) => (0xff, 0x10 | d.wire()),
            Some(Alteration::Subtract(d)) => (0xff, 0x20 | d.wire()),
            Some(Alteration::Raise(d)) => (0xff, 0x30 | d.wire()),
            Some(Alteration::Lower(d)) => (0xff, 0x40 | d.wire()),
        };
        (at(self.0, m << self.1), at(self.0, x << self.1))
    }
    #[inline(always)]
    fn legal(&self, w: &W) -> bool {
        (w[self.0] >> self.1 & 0xf0) <= 0x40
    }
}
/// key signature: a two's complement nibble, -8 is "non standard"
pub struct KeySharpsL;
impl Any for KeySharps {
    #[inline(always)]
    fn any() -> Self {
        match choose(3) {
            0 => KeySharps::NonStandard,
            1 => KeySharps::Sharps(ux::u3::new(bits(3) as u8)),
            _ => KeySharps::Flats(ux::u3::new(bits(3) as u8)),
        }
    }
    #[inline(always)]
    fn read(&self) -> Self {
        match self {
            KeySharps::Flats(n) if u8::from(*n) == 0 => KeySharps::Sharps(*n),
            _ => *self,
        }
    }
}
impl Layout<KeySharps> for KeySharpsL {
    #[inline(always)]
    fn area(&self) -> W {
        at(1, 0xf000_0000)
    }
    #[inline(always)]
    fn enc(&self, v: &KeySharps) -> (W, W) {
        let x = match v {
            KeySharps::NonStandard => 8,
            KeySharps::Sharps(n) => u8::from(*n) as u32,
            KeySharps::Flats(n) => (16 - u8::from(*n) as u32) & 0xf,
        };
        (self.area(), at(1, x << 28))
    }
}
/// flex data address: channel, or (anything but 0) group
pub struct Addr;
impl Any for Option<u4> {
    #[inline(always)]
    fn any() -> Self {
        match choose(2) {
            0 => None,
            _ => Some(u4::any()),
        }
    }
}
impl Layout<Option<u4>> for Addr {
    #[inline(always)]
    fn area(&self) -> W {
        at(0, 0x003f_0000)
    }
    #[inline(always)]
    fn enc(&self, v: &Option<u4>) -> (W, W) {
        match v {
            Some(c) => (at(0, 0x003f_0000), at(0, c.wire() << 16)),
            None => (at(0, 0x003f_0000), at(0, 0x0010_0000)),
        }
    }
    #[inline(always)]
    fn means(&self, w: &W, v: &Option<u4>) -> bool {
        match v {
            Some(c) => w[0] & 0x003f_0000 == c.wire() << 16,
            None => w[0] & 0x0030_0000 != 0,
        }
    }
}
/// note attribute: type in the last octet of word 0, data in the low half of word 1
pub struct Attr;
impl Any for Option<NoteAttribute> {
    #[inline(always)]
    fn any() -> Self {
        match choose(4) {
            0 => None,
            1 => Some(NoteAttribute::ManufacturerSpecific(u16::any())),
            2 => Some(NoteAttribute::ProfileSpecific(u16::any())),
            _ => Some(NoteAttribute::Pitch7_9(midi2::num::Fixed7_9::from_bits(u16::any()))),
        }
    }
}
impl Layout<Option<NoteAttribute>> for Attr {
    #[inline(always)]
    fn area(&self) -> W {
        [0xff, 0xffff, 0, 0]
    }
    #[inline(always)]
    fn enc(&self, v: &Option<NoteAttribute>) -> (W, W) {
        match v {
            None => ([0xff, 0, 0, 0], [0; 4]),
            Some(NoteAttribute::ManufacturerSpecific(d)) => (self.area(), [1, *d as u32, 0, 0]),
            Some(NoteAttribute::ProfileSpecific(d)) => (self.area(), [2, *d as u32, 0, 0]),
            Some(NoteAttribute::Pitch7_9(d)) => (self.area(), [3, d.to_bits() as u32, 0, 0]),
            Some(_) => {
                check(false, "a value outside the table");
                ([0; 4], [0; 4])
            }
        }
    }
    #[inline(always)]
    fn legal(&self, w: &W) -> bool {
        w[0] & 0xff <= 3
    }
}
/// program change bank: present iff the B flag is set
pub struct BankL;
impl Any for Option<u14> {
    #[inline(always)]
    fn any() -> Self {
        match choose(2) {
            0 => None,
            _ => Some(u14::any()),
        }
    }
}
impl Layout<Option<u14>> for BankL {
    #[inline(always)]
    fn area(&self) -> W {
        [1, 0xffff, 0, 0]
    }
    #[inline(always)]
    fn enc(&self, v: &Option<u14>) -> (W, W) {
        match v {
            None => ([1, 0, 0, 0], [0; 4]),
            Some(b) => {
                let x = b.wire();
                ([1, 0x7f7f, 0, 0], [1, (x & 0x7f) << 8 | x >> 7, 0, 0])
            }
        }
    }
}
/// registered per note controller: index in the last octet, data in word 1.
/// Indices 70..=79 and 91..=95 have two names each; reading gives the indexed one.
pub struct CtlL;
pub fn ctl(k: u32, d: u32) -> (Controller, u32, Controller) {
    use Controller::*;
    let snd = |i: u32| SoundController { index: i as u8, data: d };
    let eff = |i: u32| EffectDepth { index: i as u8, data: d };
    // (value to write, index on the wire, value read back)
    match k {
        0 => (Modulation(d), 1, Modulation(d)),
        1 => (Breath(d), 2, Breath(d)),
        2 => {
            let p = Pitch7_25(midi2::num::Fixed7_25::from_bits(d));
            (p, 3, p)
        }
        3 => (Volume(d), 7, Volume(d)),
        4 => (Balance(d), 8, Balance(d)),
        5 => (Pan(d), 10, Pan(d)),
        6 => (Expression(d), 11, Expression(d)),
        7..=16 => (snd(k - 6), 63 + k, snd(k - 6)),
        17..=21 => (eff(k - 16), 74 + k, eff(k - 16)),
        22 => (SoundVariation(d), 70, snd(1)),
        23 => (Timbre(d), 71, snd(2)),
        24 => (ReleaseTime(d), 72, snd(3)),
        25 => (AttackTime(d), 73, snd(4)),
        26 => (Brightness(d), 74, snd(5)),
        27 => (DecayTime(d), 75, snd(6)),
        28 => (VebratoRate(d), 76, snd(7)),
        29 => (VebratoDepth(d), 77, snd(8)),
        30 => (VebratoDelay(d), 78, snd(9)),
        31 => (Undefined(d), 79, snd(10)),
        32 => (ReverbSendLevel(d), 91, eff(1)),
        _ => (ChorusSendLevel(d), 93, eff(3)),
    }
}
pub const CTLS: u32 = 34;
impl Any for Controller {
    #[inline(always)]
    fn any() -> Self {
        ctl(choose(CTLS), u32::any()).0
    }
    #[inline(always)]
    fn read(&self) -> Self {
        use Controller::*;
        let snd = |i: u8, d: u32| SoundController { index: i, data: d };
        match *self {
            SoundVariation(d) => snd(1, d),
            Timbre(d) => snd(2, d),
            ReleaseTime(d) => snd(3, d),
            AttackTime(d) => snd(4, d),
            Brightness(d) => snd(5, d),
            DecayTime(d) => snd(6, d),
            VebratoRate(d) => snd(7, d),
            VebratoDepth(d) => snd(8, d),
            VebratoDelay(d) => snd(9, d),
            Undefined(d) => snd(10, d),
            ReverbSendLevel(d) => EffectDepth { index: 1, data: d },
            ChorusSendLevel(d) => EffectDepth { index: 3, data: d },
            c => c,
        }
    }
}
impl Layout<Controller> for CtlL {
    #[inline(always)]
    fn area(&self) -> W {
        [0xff, !0, 0, 0]
    }
    fn enc(&self, v: &Controller) -> (W, W) {
        use Controller::*;
        let (i, d) = match v.read() {
            Modulation(d) => (1, d),
            Breath(d) => (2, d),
            Pitch7_25(d) => (3, d.to_bits()),
            Volume(d) => (7, d),
            Balance(d) => (8, d),
            Pan(d) => (10, d),
            Expression(d) => (11, d),
            SoundController { index, data } => (69 + index as u32, data),
            EffectDepth { index, data } => (90 + index as u32, data),
            _ => {
                check(false, "a value outside the table");
                (0, 0)
            }
        };
        (self.area(), [i, d, 0, 0])
    }
    #[inline(always)]
    fn legal(&self, w: &W) -> bool {
        let i = w[0] & 0xff;
        (i >= 1 && i <= 3) || i == 7 || i == 8 || i == 10 || i == 11 || (i >= 70 && i <= 79) || (i >= 91 && i <= 95)
    }
}

macro_rules! set_rev {
    ($m:ident;) => {};
    ($m:ident; $s:ident $v:ident, $($rest:tt)*) => { set_rev!($m; $($rest)*); $m.$s($v.clone()); };
}
/// `msg!{ module: Type, words, header mask & value, new() words; field getter setter type layout; ... }`
/// `ump` fields exist only in the UMP form (the group), `both` fields in the
/// byte form as well where there is one.
macro_rules! msg {
    ($m:ident: $($ty:ident)::+, $len:expr, $mask:expr => $hdr:expr, new $new:expr,
     ump { $($ug:ident $us:ident $ut:ty = $ul:expr;)* }
     both { $($bg:ident $bs:ident $bt:ty = $bl:expr;)* }
    ) => {
        #[allow(unused)]
        pub mod $m {
            use super::*;
            use midi2::buffer::{Buffer, BufferMut, Ump, Bytes};
            pub use $($ty)::+ as M;
            pub const LEN: usize = $len;
            pub const MASK: W = $mask;
            pub const HDR: W = $hdr;
            pub const NEW: W = $new;
            pub const NAME: &str = stringify!($m);
            /// four words, the first LEN of which carry this message's header
            #[inline(always)]
            pub fn words() -> W {
                let w: W = [any_u32(), any_u32(), any_u32(), any_u32()];
                or(&masked(&w, &not(&MASK)), &HDR)
            }
            /// In a message with many fields only fields `k` and `j` are arbitrary
            /// (and the bits no field owns); the others hold one of two values.
            pub fn words_for(k: u32, j: u32) -> W {
                let w = words();
                if FIELDS <= 11 { return w; }
                let base = if choose(2) == 0 { NEW } else { BASE };
                let mut fixed: W = [0; 4];
                let mut i = 0u32;
                $(if i != k && i != j { fixed = or(&fixed, &Layout::<$ut>::area(&$ul)); } i += 1;)*
                $(if i != k && i != j { fixed = or(&fixed, &Layout::<$bt>::area(&$bl)); } i += 1;)*
                or(&masked(&w, &not(&fixed)), &masked(&base, &fixed))
            }
            /// some field choice of a message with many fields
            pub fn words_two() -> W {
                if FIELDS <= 11 { return words(); }
                let k = choose(FIELDS);
                words_for(k, choose(k + 1))
            }
            #[inline(always)]
            pub fn legal(w: &W) -> bool {
                let mut ok = masked(w, &MASK) == HDR;
                $(ok &= Layout::<$ut>::legal(&$ul, w);)*
                $(ok &= Layout::<$bt>::legal(&$bl, w);)*
                ok && extra_legal(w)
            }
            #[inline(always)]
            fn extra_legal(w: &W) -> bool {
                // set tempo, time signature and metronome are not channel messages
                !(HDR[0] >> 28 == 0xd && HDR[0] & 0xffff <= 2) || w[0] & 0x0030_0000 != 0
            }
            pub fn decode_fields<'a>(m: &M<&'a [u32]>, w: &W) {
                if FIELDS == 0 { return; }
                let k = choose(FIELDS);
                let mut i = 0u32;
                $(if k == i {
                    let v: $ut = m.$ug();
                    check(Layout::<$ut>::means(&$ul, w, &v), concat!(stringify!($m), ".", stringify!($ug), " reads its wire bits"));
                } i += 1;)*
                $(if k == i {
                    let v: $bt = m.$bg();
                    check(Layout::<$bt>::means(&$bl, w, &v), concat!(stringify!($m), ".", stringify!($bg), " reads its wire bits"));
                } i += 1;)*
            }
            /// parsing accepts exactly the words whose header and fields can be
            /// interpreted, and every getter reads the specified bits
            pub fn decode() {
                let w = words_two();
                let ok = legal(&w);
                match M::<&[u32]>::try_from(&w[..LEN]) {
                    Ok(m) => {
                        cover(concat!(stringify!($m), ": decode"));
                        check(ok, concat!(stringify!($m), ": rejects fields it cannot represent"));
                        if ok { decode_fields(&m, &w); }
                    }
                    Err(_) => check(!ok, concat!(stringify!($m), ": accepts every well formed message")),
                }
            }
            /// the header alone decides which words are this message
            pub fn header() {
                let w: W = [any_u32(), any_u32(), any_u32(), any_u32()];
                let n = choose(LEN as u32 + 1) as usize;
                if M::<&[u32]>::try_from(&w[..n]).is_ok() {
                    cover(concat!(stringify!($m), ": header"));
                    check(n == LEN, concat!(stringify!($m), ": needs all its words"));
                    check(masked(&w, &MASK) == HDR, concat!(stringify!($m), ": has its own header"));
                }
            }
            /// new() followed by every setter gives exactly the specified words
            pub fn encode() {
                mark();
                let rev = choose(2) == 1;
                // messages with many fields: every pair of fields, the others default
                let few = FIELDS <= 11;
                let (k, j) = if few { (0, 0) } else { (choose(FIELDS), choose(FIELDS)) };
                let d = M::<[u32; 4]>::new();
                let mut i = 0u32;
                $(let $ug: $ut = if few || i == k || i == j { Any::any() } else { d.$ug() }; i += 1;)*
                $(let $bg: $bt = if few || i == k || i == j { Any::any() } else { d.$bg() }; i += 1;)*
                // bits no field value determines are zero
                let mut area: W = [0; 4];
                let mut want: W = [0; 4];
                $({ area = or(&area, &Layout::<$ut>::area(&$ul)); want = or(&want, &Layout::<$ut>::enc(&$ul, &$ug).1); })*
                $({ area = or(&area, &Layout::<$bt>::area(&$bl)); want = or(&want, &Layout::<$bt>::enc(&$bl, &$bg).1); })*
                let want = or(&masked(&NEW, &not(&area)), &want);
                let mut m = M::<[u32; 4]>::new();
                if rev { set_rev!(m; $($us $ug,)* $($bs $bg,)*); }
                else { $(m.$us($ug.clone());)* $(m.$bs($bg.clone());)* }
                cover(concat!(stringify!($m), ": encode"));
                let d = m.data();
                check(d.len() == LEN, concat!(stringify!($m), ": size on the wire"));
                for i in 0..LEN.min(d.len()) {
                    check(d[i] == want[i], concat!(stringify!($m), ": setters write the specified words"));
                }
            }
            /// sets field `k` to any value: the bits that own it, those it decides, and their value
            fn set_one<B: Ump + BufferMut>(m: &mut M<B>, k: u32, read: bool) -> (W, W, W) {
                let mut i = 0u32;
                let mut area: W = [0; 4];
                let (mut mask, mut want): (W, W) = ([0; 4], [0; 4]);
                $(if k == i {
                    let v: $ut = Any::any();
                    m.$us(v.clone());
                    if read { check(m.$ug() == v.read(), concat!(stringify!($m), ".", stringify!($ug), " reads back what was set")); }
                    area = Layout::<$ut>::area(&$ul);
                    (mask, want) = Layout::<$ut>::enc(&$ul, &v);
                } i += 1;)*
                $(if k == i {
                    let v: $bt = Any::any();
                    m.$bs(v.clone());
                    if read { check(m.$bg() == v.read(), concat!(stringify!($m), ".", stringify!($bg), " reads back what was set")); }
                    area = Layout::<$bt>::area(&$bl);
                    (mask, want) = Layout::<$bt>::enc(&$bl, &v);
                } i += 1;)*
                (area, mask, want)
            }
            /// one setter on an arbitrary valid message
            pub fn frame() {
                mark();
                let n = FIELDS;
                if n == 0 { return; }
                let (k, j) = (choose(n), choose(n + 1));
                let w = words_for(k, j);
                let Ok(src) = M::<&[u32]>::try_from(&w[..LEN]) else { return };
                let Ok(mut m): Result<M<[u32; LEN]>, _> = M::<[u32; LEN]>::try_rebuffer_from(src) else {
                    check(false, concat!(stringify!($m), ": copy fits"));
                    return
                };
                cover(concat!(stringify!($m), ": set"));
                if j == n && choose(2) == 1 {
                    // another message behind this one in the buffer
                    let mut all = [0u32; LEN + 2];
                    all[..LEN].copy_from_slice(&w[..LEN]);
                    all[LEN] = any_u32() & 0x0fff_ffff | 0x3000_0000;
                    all[LEN + 1] = any_u32();
                    let Ok(src) = M::<&[u32]>::try_from(&all[..]) else {
                        check(false, concat!(stringify!($m), ": parses whatever is behind it"));
                        return
                    };
                    let Ok(mut m) = M::<[u32; LEN + 2]>::try_rebuffer_from(src) else {
                        check(false, concat!(stringify!($m), ": copy fits"));
                        return
                    };
                    let (area, mask, want) = set_one(&mut m, k, false);
                    let d = m.data();
                    check(d.len() == LEN, concat!(stringify!($m), ": a setter keeps the size"));
                    for i in 0..LEN.min(d.len()) {
                        check(d[i] & mask[i] == want[i], concat!(stringify!($m), ": a setter writes the specified bits"));
                        check(d[i] & !area[i] == w[i] & !area[i], concat!(stringify!($m), ": a setter leaves other bits alone"));
                    }
                    if d.len() == LEN {
                        check(behind(d, LEN + 2) == &all[LEN..], concat!(stringify!($m), ": a setter changes nothing behind the message"));
                    }
                    return
                }
                // field j (if another) must keep its value
                let mut i = 0u32;
                $(let $ug = if j == i && k != i { Some(src.$ug()) } else { None }; i += 1;)*
                $(let $bg = if j == i && k != i { Some(src.$bg()) } else { None }; i += 1;)*
                let (area, mask, want) = set_one(&mut m, k, j == k);
                if j == n {
                    let d = m.data();
                    check(d.len() == LEN, concat!(stringify!($m), ": a setter keeps the size"));
                    for i in 0..LEN.min(d.len()) {
                        check(d[i] & mask[i] == want[i], concat!(stringify!($m), ": a setter writes the specified bits"));
                        check(d[i] & !area[i] == w[i] & !area[i], concat!(stringify!($m), ": a setter leaves other bits alone"));
                    }
                    check(M::<&[u32]>::try_from(&d[..]).is_ok(), concat!(stringify!($m), ": still valid after a setter"));
                }
                $(if let Some(v) = $ug { check(m.$ug() == v, concat!(stringify!($m), ".", stringify!($ug), " is not changed by another setter")); })*
                $(if let Some(v) = $bg { check(m.$bg() == v, concat!(stringify!($m), ".", stringify!($bg), " is not changed by another setter")); })*
            }
            /// function block discovery is only one word long (see known-findings.txt)
            #[inline(always)]
            fn mark() {
                if HDR[0] == 0xf010_0000 { known("fbd-size"); }
            }
            /// every accessor
            #[inline(always)]
            pub fn poke<B: Ump>(m: &M<B>) {
                $(let _ = m.$ug();)*
                $(let _ = m.$bg();)*
            }
            /// accessor number `k` (no accessor: nothing)
            #[inline(always)]
            pub fn poke_one<B: Ump>(m: &M<B>, k: u32) {
                let mut i = 0u32;
                $(if k == i { let _ = m.$ug(); } i += 1;)*
                $(if k == i { let _ = m.$bg(); } i += 1;)*
            }
            pub const FIELDS: u32 = 0 $(+ {let _ = stringify!($ug); 1})* $(+ {let _ = stringify!($bg); 1})*;
            /// new messages: right size, right header, default fields, whatever was in the buffer
            pub fn fresh() {
                mark();
                let w: W = [any_u32(), any_u32(), any_u32(), any_u32()];
                let ok = |d: &[u32]| {
                    cover(concat!(stringify!($m), ": new"));
                    check(d.len() == LEN, concat!(stringify!($m), ": size of a new message"));
                    for i in 0..LEN.min(d.len()) {
                        check(d[i] == NEW[i], concat!(stringify!($m), ": words of a new message"));
                    }
                    check(M::<&[u32]>::try_from(d).is_ok(), concat!(stringify!($m), ": a new message parses"));
                };
                match choose(11) {
                    9 => {
                        let b = Room::<u32, 4>::any(choose(5) as usize);
                        match M::<Room<u32, 4>>::try_new_with_buffer(b) {
                            Ok(m) => ok(m.data()),
                            Err(_) => check(false, concat!(stringify!($m), ": try_new succeeds when it fits")),
                        }
                        check(M::<Room<u32, {LEN - 1}>>::try_new_with_buffer(Room::any(0)).is_err(), concat!(stringify!($m), ": try_new fails when it does not fit"));
                    }
                    10 => ok(M::<Grow<u32>>::new_with_buffer(Grow::any(choose(6) as usize)).data()),
                    0 => ok(M::<[u32; 4]>::new().data()),
                    1 => ok(M::<Vec<u32>>::new().data()),
                    2 => ok(M::<[u32; LEN]>::new().data()),
                    3 => match M::<[u32; 5]>::try_new() {
                        Ok(m) => ok(m.data()),
                        Err(_) => check(false, concat!(stringify!($m), ": try_new succeeds when it fits")),
                    },
                    4 => {
                        let v: Vec<u32> = w[..choose(5) as usize].to_vec();
                        ok(M::<Vec<u32>>::new_with_buffer(v).data())
                    }
                    5 => {
                        let n = choose(5) as usize;
                        let mut w = w;
                        match M::<&mut [u32]>::try_new_with_buffer(&mut w[..n]) {
                            Ok(m) => {
                                check(n >= LEN, concat!(stringify!($m), ": try_new fails when it does not fit"));
                                ok(m.data())
                            }
                            Err(_) => check(n < LEN, concat!(stringify!($m), ": try_new succeeds when it fits")),
                        }
                    }
                    6 => match M::<[u32; 4]>::try_new_with_buffer(w) {
                        Ok(m) => ok(m.data()),
                        Err(_) => check(false, concat!(stringify!($m), ": try_new succeeds when it fits")),
                    },
                    7 => match M::<[u32; LEN - 1]>::try_new() {
                        Ok(_) => check(false, concat!(stringify!($m), ": try_new fails when it does not fit")),
                        Err(_) => cover(concat!(stringify!($m), ": too small")),
                    },
                    _ => {
                        let mut v: Vec<u32> = w[..choose(5) as usize].to_vec();
                        ok(M::<&mut Vec<u32>>::new_with_buffer(&mut v).data())
                    }
                }
            }
        }
    };
}
/// The byte stream form: word 0 without its group, most significant octet first.
#[cfg(feature = "bytes")]
macro_rules! msgb {
    ($bm:ident of $m:ident in $en:ident, $blen:expr, { $($g:ident $s:ident $t:ty = $l:expr;)* }) => {
        #[allow(unused)]
        pub mod $bm {
            use super::*;
            use super::$m::{HDR, MASK, M};
            use midi2::buffer::Bytes;
            pub const BLEN: usize = $blen;
            pub const FIELDS: u32 = 0 $(+ {let _ = stringify!($g); 1})*;
            pub const NAME: &str = stringify!($bm);
            pub const BMASK: u32 = MASK[0] & 0x00ff_ffff;
            pub const BHDR: u32 = HDR[0] & 0x00ff_ffff;
            #[inline(always)]
            pub fn to_w(b: &[u8]) -> W {
                let mut x = 0u32;
                if b.len() > 0 { x |= (b[0] as u32) << 16; }
                if b.len() > 1 { x |= (b[1] as u32) << 8; }
                if b.len() > 2 { x |= b[2] as u32; }
                at(0, x)
            }
            #[inline(always)]
            pub fn from_w(w: u32) -> [u8; 3] {
                [(w >> 16) as u8, (w >> 8) as u8, w as u8]
            }
            /// three bytes with this message's status; data bytes arbitrary
            #[inline(always)]
            pub fn raw() -> [u8; 3] {
                let w = bits(24) as u32;
                from_w(w & !BMASK | BHDR)
            }
            /// the same with data bytes below 0x80
            #[inline(always)]
            pub fn well() -> [u8; 3] {
                let b = raw();
                [b[0], b[1] & 0x7f, b[2] & 0x7f]
            }
            /// the bytes are this message and every getter reads the specified bits
            pub fn decode() {
                let b = raw();
                let good = b[1] < 0x80 && b[2] < 0x80;
                match M::<&[u8]>::try_from(&b[..BLEN]) {
                    Ok(m) => {
                        cover(concat!(stringify!($bm), ": decode"));
                        let w = to_w(&b[..BLEN]);
                        if FIELDS == 0 { return; }
                        let k = choose(FIELDS);
                        let mut i = 0u32;
                        $(if k == i {
                            let v: $t = m.$g();
                            check(Layout::<$t>::means(&$l, &w, &v), concat!(stringify!($bm), ".", stringify!($g), " reads its wire bits"));
                        } i += 1;)*
                    }
                    Err(_) => check(!good, concat!(stringify!($bm), ": accepts every well formed message")),
                }
            }
            pub fn header() {
                let b = [any_u8(), any_u8(), any_u8()];
                let n = choose(BLEN as u32 + 1) as usize;
                if M::<&[u8]>::try_from(&b[..n]).is_ok() {
                    cover(concat!(stringify!($bm), ": header"));
                    check(n == BLEN, concat!(stringify!($bm), ": needs all its bytes"));
                    check(to_w(&b)[0] & BMASK == BHDR, concat!(stringify!($bm), ": has its own status"));
                }
            }
            pub fn encode() {
                let rev = choose(2) == 1;
                $(let $g: $t = Any::any();)*
                let mut want: W = at(0, BHDR);
                $({ want = or(&want, &Layout::<$t>::enc(&$l, &$g).1); })*
                let mut m = M::<[u8; 3]>::new();
                if rev { set_rev!(m; $($s $g,)*); } else { $(m.$s($g.clone());)* }
                cover(concat!(stringify!($bm), ": encode"));
                let d = m.data();
                check(d.len() == BLEN, concat!(stringify!($bm), ": size on the wire"));
                let want = from_w(want[0]);
                for i in 0..BLEN.min(d.len()) {
                    check(d[i] == want[i], concat!(stringify!($bm), ": setters write the specified bytes"));
                }
            }
            pub fn frame() {
                if FIELDS == 0 { return; }
                let (k, j) = (choose(FIELDS), choose(FIELDS + 1));
                let b = raw();
                let mut all = [0u8; BLEN + 2];
                all[..BLEN].copy_from_slice(&b[..BLEN]);
                all[BLEN] = any_u8();
                all[BLEN + 1] = any_u8();
                let n = if choose(2) == 0 { BLEN } else { BLEN + 2 };
                let Ok(src) = M::<&[u8]>::try_from(&all[..n]) else { return };
                let Ok(mut m) = M::<[u8; BLEN + 2]>::try_rebuffer_from(src) else {
                    check(false, concat!(stringify!($bm), ": copy fits"));
                    return
                };
                cover(concat!(stringify!($bm), ": set"));
                let mut i = 0u32;
                $(let $g = if j == i && k != i { Some(src.$g()) } else { None }; i += 1;)*
                let mut i = 0u32;
                let (mut area, mut want): (W, W) = ([0; 4], [0; 4]);
                $(if k == i {
                    let v: $t = Any::any();
                    m.$s(v.clone());
                    if j == k { check(m.$g() == v, concat!(stringify!($bm), ".", stringify!($g), " reads back what was set")); }
                    area = Layout::<$t>::area(&$l);
                    want = Layout::<$t>::enc(&$l, &v).1;
                } i += 1;)*
                if j == FIELDS {
                    let d = m.data();
                    check(d.len() == BLEN, concat!(stringify!($bm), ": a setter keeps the size"));
                    let (a, want) = (from_w(area[0]), from_w(want[0]));
                    for i in 0..BLEN.min(d.len()) {
                        check(d[i] & a[i] == want[i], concat!(stringify!($bm), ": a setter writes the specified bits"));
                        check(d[i] & !a[i] == b[i] & !a[i], concat!(stringify!($bm), ": a setter leaves other bits alone"));
                    }
                    if n > BLEN && d.len() == BLEN {
                        check(behind(d, n) == &all[BLEN..], concat!(stringify!($bm), ": a setter changes nothing behind the message"));
                    }
                    check(M::<&[u8]>::try_from(&d[..]).is_ok(), concat!(stringify!($bm), ": still valid after a setter"));
                }
                $(if let Some(v) = $g { check(m.$g() == v, concat!(stringify!($bm), ".", stringify!($g), " is not changed by another setter")); })*
            }
            #[inline(always)]
            pub fn poke<B: Bytes>(m: &M<B>) {
                $(let _ = m.$g();)*
            }
            pub fn fresh() {
                let w: [u8; 4] = [any_u8(), any_u8(), any_u8(), any_u8()];
                let ok = |d: &[u8]| {
                    cover(concat!(stringify!($bm), ": new"));
                    check(d.len() == BLEN, concat!(stringify!($bm), ": size of a new message"));
                    let new = from_w(BHDR);
                    for i in 0..BLEN.min(d.len()) {
                        check(d[i] == new[i], concat!(stringify!($bm), ": bytes of a new message"));
                    }
                    check(M::<&[u8]>::try_from(d).is_ok(), concat!(stringify!($bm), ": a new message parses"));
                };
                match choose(8) {
                    6 => {
                        let b = Room::<u8, 4>::any(choose(5) as usize);
                        match M::<Room<u8, 4>>::try_new_with_buffer(b) {
                            Ok(m) => ok(m.data()),
                            Err(_) => check(false, concat!(stringify!($bm), ": try_new succeeds when it fits")),
                        }
                        check(M::<Room<u8, {BLEN - 1}>>::try_new_with_buffer(Room::any(0)).is_err(), concat!(stringify!($bm), ": try_new fails when it does not fit"));
                    }
                    7 => ok(M::<Grow<u8>>::new_with_buffer(Grow::any(choose(6) as usize)).data()),
                    0 => ok(M::<[u8; 3]>::new().data()),
                    1 => ok(M::<Vec<u8>>::new().data()),
                    2 => match M::<[u8; BLEN - 1]>::try_new() {
                        Ok(_) => check(false, concat!(stringify!($bm), ": try_new fails when it does not fit")),
                        Err(_) => cover(concat!(stringify!($bm), ": too small")),
                    },
                    3 => {
                        let v: Vec<u8> = w[..choose(5) as usize].to_vec();
                        ok(M::<Vec<u8>>::new_with_buffer(v).data())
                    }
                    4 => {
                        let n = choose(5) as usize;
                        let mut w = w;
                        match M::<&mut [u8]>::try_new_with_buffer(&mut w[..n]) {
                            Ok(m) => {
                                check(n >= BLEN, concat!(stringify!($bm), ": try_new fails when it does not fit"));
                                ok(m.data())
                            }
                            Err(_) => check(n < BLEN, concat!(stringify!($bm), ": try_new succeeds when it fits")),
                        }
                    }
                    _ => match M::<[u8; 4]>::try_new_with_buffer(w) {
                        Ok(m) => ok(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": try_new succeeds when it fits")),
                    },
                }
            }
            /// bytes -> UMP -> bytes and UMP -> bytes -> UMP
            pub fn convert() {
                let b = well();
                let want = to_w(&b[..BLEN])[0] | HDR[0] & 0xf000_0000;
                let is_ump = |d: &[u32]| {
                    cover(concat!(stringify!($bm), ": to UMP"));
                    check(d.len() == 1, concat!(stringify!($bm), ": one UMP word"));
                    check(d[0] == want, concat!(stringify!($bm), ": same status and data, group 0"));
                };
                let is_bytes = |d: &[u8]| {
                    cover(concat!(stringify!($bm), ": to bytes"));
                    check(d.len() == BLEN, concat!(stringify!($bm), ": size of the byte form"));
                    for i in 0..BLEN.min(d.len()) {
                        check(d[i] == b[i], concat!(stringify!($bm), ": same status and data in bytes"));
                    }
                };
                // other things may follow in the buffer
                let mut bs = b[..BLEN].to_vec();
                for _ in 0..choose(3) {
                    bs.push(any_u8());
                }
                let Ok(src) = M::<&[u8]>::try_from(&bs[..]) else {
                    check(false, concat!(stringify!($bm), ": accepts every well formed message"));
                    return
                };
                // the group is not in the byte form
                let g = bits(4) as u32;
                let mut uw = vec![want | g << 24];
                for _ in 0..choose(3) {
                    uw.push(any_u32());
                }
                let Ok(usrc) = M::<&[u32]>::try_from(&uw[..]) else {
                    check(false, concat!(stringify!($bm), ": UMP form parses"));
                    return
                };
                use midi2::{FromBytes, FromUmp, TryFromBytes, TryFromUmp};
                match choose(24) {
                    12 => match M::<Room<u32, 1>>::try_from_bytes(src) {
                        Ok(m) => is_ump(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits one word")),
                    },
                    13 => match M::<Room<u32, 3>>::try_from_bytes(src) {
                        Ok(m) => is_ump(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits")),
                    },
                    14 => match M::<Room<u8, BLEN>>::try_from_ump(usrc) {
                        Ok(m) => is_bytes(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits its size")),
                    },
                    15 => match M::<Room<u8, 4>>::try_from_ump(usrc) {
                        Ok(m) => is_bytes(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits")),
                    },
                    16 => match M::<[u32; 5]>::try_from_bytes(src) {
                        Ok(m) => is_ump(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits")),
                    },
                    17 => match M::<[u8; 7]>::try_from_ump(usrc) {
                        Ok(m) => is_bytes(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits")),
                    },
                    18 => is_ump(M::<Vec<u32>>::from_bytes(M::<Vec<u8>>::rebuffer_from(src)).data()),
                    19 => is_bytes(M::<Vec<u8>>::from_ump(M::<Vec<u32>>::rebuffer_from(usrc)).data()),
                    20 => match M::<[u8; 6]>::try_rebuffer_from(src) {
                        Ok(m) => match $en::<[u32; 2]>::try_from_bytes($en::from(m)) {
                            Ok(m) => is_ump(m.data()),
                            Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits")),
                        },
                        Err(_) => check(false, concat!(stringify!($bm), ": fits the array")),
                    },
                    21 => match M::<[u32; 4]>::try_rebuffer_from(usrc) {
                        Ok(m) => match $en::<[u8; 5]>::try_from_ump($en::from(m)) {
                            Ok(m) => is_bytes(m.data()),
                            Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits")),
                        },
                        Err(_) => check(false, concat!(stringify!($bm), ": fits the array")),
                    },
                    22 => check($en::<[u32; 0]>::try_from_bytes($en::from(src)).is_err(), concat!(stringify!($bm), ": no room, no message")),
                    23 => check($en::<[u8; 0]>::try_from_ump($en::from(usrc)).is_err(), concat!(stringify!($bm), ": no room, no message")),
                    0 => is_ump(M::<Vec<u32>>::from_bytes(src).data()),
                    1 => match M::<[u32; 1]>::try_from_bytes(src) {
                        Ok(m) => is_ump(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits one word")),
                    },
                    2 => check(M::<[u32; 0]>::try_from_bytes(src).is_err(), concat!(stringify!($bm), ": no room, no message")),
                    3 => is_bytes(M::<Vec<u8>>::from_ump(usrc).data()),
                    4 => match M::<[u8; BLEN]>::try_from_ump(usrc) {
                        Ok(m) => is_bytes(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits its size")),
                    },
                    5 => check(M::<[u8; BLEN - 1]>::try_from_ump(usrc).is_err(), concat!(stringify!($bm), ": no room, no message")),
                    // through the family enum
                    6 => is_ump($en::<Vec<u32>>::from_bytes($en::from(src)).data()),
                    7 => match $en::<[u32; 4]>::try_from_bytes($en::from(src)) {
                        Ok(m) => is_ump(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the UMP form fits")),
                    },
                    8 => is_bytes($en::<Vec<u8>>::from_ump($en::from(usrc)).data()),
                    9 => match $en::<[u8; 3]>::try_from_ump($en::from(usrc)) {
                        Ok(m) => is_bytes(m.data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the byte form fits")),
                    },
                    10 => match $en::try_from(&bs[..]) {
                        Ok(e) => is_ump($en::<Vec<u32>>::from_bytes(e).data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the family parses it")),
                    },
                    _ => match $en::try_from(&uw[..]) {
                        Ok(e) => is_bytes($en::<Vec<u8>>::from_ump(e).data()),
                        Err(_) => check(false, concat!(stringify!($bm), ": the family parses it")),
                    },
                }
            }
        }
    };
}
#[cfg(feature = "bytes")]
use midi2::{channel_voice1::ChannelVoice1, system_common::SystemCommon};
#[cfg(feature = "bytes")]
include!("table_bytes.rs");
include!("table.rs");
