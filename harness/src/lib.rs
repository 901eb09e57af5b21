#![allow(clippy::all)]
pub mod own;
pub mod print;
pub mod sym;
#[macro_use]
#[cfg(feature = "spec")]
pub mod spec;

macro_rules! modules { ($($f:literal $m:ident)*) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    #[cfg(not(symex))]
    pub fn table() -> Vec<(&'static str, fn())> {
        #[allow(unused_mut)]
        let mut v: Vec<(&'static str, fn())> = vec![];
        $(#[cfg(feature = $f)] v.extend_from_slice($m::TABLE);)*
        v
    }
}}
#[cfg(feature = "sx")]
#[macro_use]
pub mod sx;
modules! { "fixed" fixed "bytes" bytes "sysex7" sysex7 "sysex8" sysex8 "text" text "dispatch" dispatch "anybytes" anybytes "ci" ci }
