//! Buffers of a user's own, as the documentation of `midi2::buffer` invites.
#![allow(dead_code)]
use crate::sym::*;
use midi2::buffer::*;
use midi2::error::BufferOverflow;

pub trait AnyUnit: Unit + 'static {
    fn anything() -> Self;
}
impl AnyUnit for u8 {
    fn anything() -> u8 {
        any_u8()
    }
}
impl AnyUnit for u32 {
    fn anything() -> u32 {
        any_u32()
    }
}
/// Room for `N` units of which `len` are in use; what is not in use keeps its content.
pub struct Room<U, const N: usize> {
    pub data: [U; N],
    pub len: usize,
}
impl<U: AnyUnit, const N: usize> Room<U, N> {
    /// anything in it
    pub fn any(len: usize) -> Self {
        let mut data = [U::zero(); N];
        for x in data.iter_mut() {
            *x = U::anything();
        }
        Room { data, len: if len < N { len } else { N } }
    }
}
impl<U: AnyUnit, const N: usize> Buffer for Room<U, N> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.data[..self.len]
    }
}
impl<U: AnyUnit, const N: usize> BufferMut for Room<U, N> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.data[..self.len]
    }
}
impl<U: AnyUnit, const N: usize> BufferTryResize for Room<U, N> {
    fn try_resize(&mut self, size: usize) -> Result<(), BufferOverflow> {
        if size > N {
            return Err(BufferOverflow);
        }
        self.len = size;
        Ok(())
    }
}
impl<U: AnyUnit, const N: usize> TryFromBuffer<&[U]> for Room<U, N> {
    fn try_from_buffer(v: &[U]) -> Result<Self, BufferOverflow> {
        if v.len() > N {
            return Err(BufferOverflow);
        }
        let mut r = Room { data: [U::zero(); N], len: v.len() };
        r.data[..v.len()].copy_from_slice(v);
        Ok(r)
    }
}
impl<U: AnyUnit, const N: usize> BufferDefault for Room<U, N> {
    fn default() -> Self {
        // a default buffer holds zeros
        Room { data: [U::zero(); N], len: [0, 1, N][choose(3) as usize] }
    }
}
/// Grows without limit; new units hold anything.
pub struct Grow<U>(pub Vec<U>);
impl<U: AnyUnit> Grow<U> {
    pub fn any(len: usize) -> Self {
        Grow((0..len).map(|_| U::anything()).collect())
    }
}
impl<U: AnyUnit> Buffer for Grow<U> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.0
    }
}
impl<U: AnyUnit> BufferMut for Grow<U> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.0
    }
}
impl<U: AnyUnit> BufferResize for Grow<U> {
    fn resize(&mut self, size: usize) {
        self.0.truncate(size);
        while self.0.len() < size {
            self.0.push(U::anything());
        }
    }
}
impl<U: AnyUnit> BufferDefault for Grow<U> {
    fn default() -> Self {
        Grow::any(choose(3) as usize)
    }
}
impl<U: AnyUnit> FromBuffer<&[U]> for Grow<U> {
    fn from_buffer(v: &[U]) -> Self {
        Grow(v.to_vec())
    }
}

/// What stands behind a message in its buffer of `n` units.
pub fn behind<U>(data: &[U], n: usize) -> &[U] {
    assert!(n >= data.len());
    unsafe { core::slice::from_raw_parts(data.as_ptr().add(data.len()), n - data.len()) }
}
