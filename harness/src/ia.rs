//! What the inline array harnesses share.
#![allow(dead_code)]
use crate::build::*;
use crate::sym::*;
use sized_chunks::InlineArray as I;

/// more strictly aligned than the length word: the elements go first, the length last
#[repr(align(16))]
#[derive(Clone, Copy)]
pub struct Al16(u32);
impl Elem for Al16 {
    #[inline(always)] fn mk(v: u8) -> Al16 { Al16(v as u32 * 0x01010101) }
    #[inline(always)] fn id(&self) -> u8 { if (*self as Al16).0 as u8 as u32 * 0x01010101 == self.0 { self.0 as u8 } else { 0xee } }
}
impl Elem for u64 { #[inline(always)] fn mk(v: u8) -> u64 { v as u64 * 0x0101010101010101 } #[inline(always)] fn id(&self) -> u8 { if (*self as u8) as u64 * 0x0101010101010101 == *self { *self as u8 } else { 0xee } } }
impl Elem for u16 { #[inline(always)] fn mk(v: u8) -> u16 { v as u16 * 0x0101 } #[inline(always)] fn id(&self) -> u8 { if (*self as u8) as u16 * 0x0101 == *self { *self as u8 } else { 0xee } } }
/// a counted element that is strictly aligned
#[repr(align(16))]
pub struct Tok16(pub Tok);

/// exactly f(0)..f(len-1), whichever way one looks
#[inline(always)]
pub fn is<A: Elem, T>(c: &I<A, T>, len: usize, f: impl Fn(usize) -> u8) -> bool {
    let cap = I::<A, T>::CAPACITY;
    let j = below(cap + 1);
    if c.len() != len || c.is_empty() != (len == 0) || c.is_full() != (len == cap) { return false }
    let s: &[A] = c;
    if s.len() != len { return false }
    if j < len { s[j].id() == f(j) } else { true }
}
