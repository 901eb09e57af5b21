//! What `Debug` prints: the type, and every unit of the buffer in hexadecimal.
use core::fmt::{Debug, Write};

/// collects what is printed
pub struct Page(pub Vec<u8>);
impl Write for Page {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
pub fn printed(m: &dyn Debug) -> Vec<u8> {
    let mut p = Page(Vec::with_capacity(256));
    crate::sym::check(write!(p, "{:?}", m).is_ok(), "printing a message succeeds");
    p.0
}
fn hex(out: &mut Vec<u8>, v: u32, digits: u32) {
    out.extend_from_slice(b"0x");
    for i in 0..digits {
        let d = (v >> (4 * (digits - 1 - i)) & 15) as u8;
        out.push(b'0' + d + 7 * (d > 9) as u8);
    }
}
/// `outer(name([units]))`; of the names all but the last are families
pub fn page(names: &[&str], units: impl Iterator<Item = u32>, digits: u32) -> Vec<u8> {
    let mut out = Vec::with_capacity(256);
    for n in names {
        out.extend_from_slice(n.as_bytes());
        out.push(b'(');
    }
    out.push(b'[');
    let mut first = true;
    for u in units {
        if !first {
            out.extend_from_slice(b", ");
        }
        first = false;
        hex(&mut out, u, digits);
    }
    out.push(b']');
    for _ in names {
        out.push(b')');
    }
    out
}
