//! What a harness is written against. Under `cfg(symex)` these are undefined
//! external functions which the symbolic executor intercepts; natively they
//! read a list of concrete values, so the same harness replays a
//! counterexample against the really compiled crate.

#[cfg(symex)]
mod imp {
    extern "C" {
        fn sym_bits(width: u32) -> u64;
        fn sym_choose(n: u32) -> u32;
        fn sym_assume(c: bool);
        fn sym_check(c: bool, msg: *const u8, len: usize);
        fn sym_cover(msg: *const u8, len: usize);
        fn sym_observe(v: u64);
        fn sym_known(msg: *const u8, len: usize);
        fn sym_panic_ok(ok: bool);
        fn sym_concrete(v: u64) -> u64;
    }
    #[inline(always)]
    pub fn bits(w: u32) -> u64 {
        unsafe { sym_bits(w) }
    }
    #[inline(always)]
    pub fn choose(n: u32) -> u32 {
        unsafe { sym_choose(n) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, msg: &'static str) {
        unsafe { sym_check(c, msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn cover(msg: &'static str) {
        unsafe { sym_cover(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    #[inline(always)]
    pub fn known(msg: &'static str) {
        unsafe { sym_known(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn panic_ok(ok: bool) {
        unsafe { sym_panic_ok(ok) }
    }
    #[inline(always)]
    pub fn concrete(v: u64) -> u64 {
        unsafe { sym_concrete(v) }
    }
}

#[cfg(not(symex))]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub inputs: Vec<u64>,
        pub next: usize,
        pub digest: u64,
        pub failed: Vec<String>,
        pub marks: Vec<String>,
        pub covers: Vec<String>,
        pub panic_ok: bool,
        pub assume_failed: bool,
        pub bad_input: Option<String>,
    }
    pub struct AssumeFailed;
    pub struct BadInput;
    thread_local!(pub static RUN: RefCell<Run> = RefCell::default());
    fn fnv_bytes(h: u64, b: &[u8]) -> u64 {
        b.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
    }
    pub const FNV: u64 = 0xcbf29ce484222325;
    fn next(limit: Option<u64>) -> u64 {
        let v = RUN.with(|r| {
            let mut r = r.borrow_mut();
            let v = r.inputs.get(r.next).copied();
            r.next += 1;
            v
        });
        match (v, limit) {
            (Some(v), Some(l)) if v < l => v,
            (Some(v), None) => v,
            _ => {
                RUN.with(|r| r.borrow_mut().bad_input = Some(format!("{v:?} limit {limit:?}")));
                std::panic::panic_any(BadInput)
            }
        }
    }
    pub fn bits(w: u32) -> u64 {
        next(if w == 64 { None } else { Some(1u64 << w) })
    }
    pub fn choose(n: u32) -> u32 {
        next(Some(n as u64)) as u32
    }
    pub fn assume(c: bool) {
        if !c {
            RUN.with(|r| r.borrow_mut().assume_failed = true);
            std::panic::panic_any(AssumeFailed)
        }
    }
    fn event(msg: Option<&str>, v: Option<u64>) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            if let Some(m) = msg {
                r.digest = fnv_bytes(r.digest, &fnv_bytes(FNV, m.as_bytes()).to_le_bytes());
            }
            if let Some(v) = v {
                r.digest = fnv_bytes(r.digest, &v.to_le_bytes());
            }
        })
    }
    pub fn check(c: bool, msg: &'static str) {
        event(Some(msg), Some(c as u64));
        if !c {
            RUN.with(|r| r.borrow_mut().failed.push(msg.to_string()));
        }
    }
    pub fn cover(msg: &'static str) {
        event(Some(msg), None);
        RUN.with(|r| r.borrow_mut().covers.push(msg.to_string()));
    }
    pub fn observe(v: u64) {
        event(None, Some(v));
    }
    pub fn known(msg: &'static str) {
        RUN.with(|r| r.borrow_mut().marks.push(msg.to_string()));
    }
    pub fn panic_ok(ok: bool) {
        RUN.with(|r| r.borrow_mut().panic_ok = ok);
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
}

pub use imp::{assume, bits, check, choose, concrete, cover, known, observe, panic_ok};

#[inline(always)]
pub fn any_u8() -> u8 {
    bits(8) as u8
}
#[inline(always)]
pub fn any_u16() -> u16 {
    bits(16) as u16
}
#[inline(always)]
pub fn any_u32() -> u32 {
    bits(32) as u32
}
#[inline(always)]
pub fn any_bool() -> bool {
    bits(1) != 0
}
#[inline(always)]
pub fn any_u7() -> midi2::ux::u7 {
    midi2::ux::u7::new(bits(7) as u8)
}
#[inline(always)]
pub fn any_u4() -> midi2::ux::u4 {
    midi2::ux::u4::new(bits(4) as u8)
}
#[inline(always)]
pub fn any_u2() -> midi2::ux::u2 {
    midi2::ux::u2::new(bits(2) as u8)
}
#[inline(always)]
pub fn any_u9() -> midi2::ux::u9 {
    midi2::ux::u9::new(bits(9) as u16)
}
#[inline(always)]
pub fn any_u14() -> midi2::ux::u14 {
    midi2::ux::u14::new(bits(14) as u16)
}

/// Defines harness entry points and a table of them for the replay program.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() $body
        )*
        #[cfg(not(symex))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), || $body)),*];
    };
}
