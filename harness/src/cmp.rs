//! Equality, order and hash depend on nothing but the contents.
#![allow(dead_code)]
use crate::build::*;
use crate::sym::*;
use crate::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
pub const FILE: u32 = 1800000;

/// an element not all of whose values are comparable, nor equal to themselves
#[derive(Clone, Copy)]
pub struct P(pub u8);
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.0 == o.0 && self.0 != 255 } }
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { if self.0 == 255 || o.0 == 255 { None } else { Some(self.0.cmp(&o.0)) } } }
impl Hash for P { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0) } }
impl Elem for P { #[inline(always)] fn mk(v: u8) -> P { P(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }

/// the plain sequence
pub struct W<const N: usize> { pub v: [u8; N], pub n: usize }
impl<const N: usize> W<N> {
    #[inline(always)] pub fn same<const M: usize>(&self, o: &W<M>) -> bool { if self.n != o.n { return false } let mut r = true; for k in 0..N { if k < self.n && k < M { r &= P(self.v[k]) == P(o.v[k]) } } r }
    #[inline(always)] pub fn order<const M: usize>(&self, o: &W<M>) -> Option<Ordering> {
        let mut r = Some(self.n.cmp(&o.n));
        for k in (0..N).rev() { if k < self.n && k < M && k < o.n { match P(self.v[k]).partial_cmp(&P(o.v[k])) { Some(Ordering::Equal) => (), x => r = x } } }
        r
    }
    #[inline(always)] pub fn cut(&self, l: usize, h: usize) -> W<N> { let mut v = [0; N]; for k in 0..N { if l + k < h && l + k < N { v[k] = self.v[l + k] } } W { v, n: h - l } }
}
/// contents chosen anew for every position
#[inline(always)]
pub fn fill<A: Elem, const N: usize>(n: usize, mut put: impl FnMut(usize, A)) -> W<N> {
    let mut v = [0; N];
    for k in 0..N { v[k] = any_u8(); if k < n { put(k, A::mk(v[k])) } }
    W { v, n }
}
#[inline(always)]
pub fn any_chunk<A: Elem, const N: usize>() -> (Chunk<A, N>, W<N>) { let (mut c, s) = chunk::<A, N>(); let w = fill(s.len, |k, a| c[k] = a); (c, w) }
#[inline(always)]
pub fn any_ring<A: Elem, const N: usize>() -> (RingBuffer<A, N>, W<N>) { let (mut c, s) = ring::<A, N>(); let w = fill(s.len, |k, a| c[k] = a); (c, w) }
#[inline(always)]
pub fn any_inline<A: Elem, T, const N: usize>() -> (InlineArray<A, T>, W<N>) { const { assert!(InlineArray::<A, T>::CAPACITY == N) }; let (mut c, s) = inline::<A, T>(0); let w = fill(s.len, |k, a| c[k] = a); (c, w) }
#[inline(always)]
pub fn any_array<A: Elem, const N: usize>() -> ([A; N], W<N>) { let mut a = core::array::from_fn(|_| A::mk(0)); let w = fill(N, |k, x| a[k] = x); (a, w) }
pub use sized_chunks::*;

/// == and != both ways
#[macro_export]
macro_rules! eqs { ($a:expr, $b:expr, $w:expr) => { { check!(($a == $b) == $w); check!(($a != $b) == !$w); } } }
/// partial_cmp and the operators
#[macro_export]
macro_rules! ords { ($a:expr, $b:expr, $w:expr) => { {
    let w: Option<core::cmp::Ordering> = $w;
    check!($a.partial_cmp(&$b) == w);
    check!(($a < $b) == (w == Some(core::cmp::Ordering::Less)) && ($a <= $b) == (w == Some(core::cmp::Ordering::Less) || w == Some(core::cmp::Ordering::Equal)));
    check!(($a > $b) == (w == Some(core::cmp::Ordering::Greater)) && ($a >= $b) == (w == Some(core::cmp::Ordering::Greater) || w == Some(core::cmp::Ordering::Equal)));
} } }

/// writes down everything it is fed, call by call
pub struct Rec { pub v: [u64; 24], pub n: usize }
impl Rec { fn put(&mut self, kind: u64, x: u64) { if self.n < 24 { self.v[self.n] = kind << 56 ^ x } self.n += 1 } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.put(9, b.len() as u64); for x in b { self.put(1, *x as u64) } }
    fn write_u8(&mut self, x: u8) { self.put(2, x as u64) }
    fn write_u16(&mut self, x: u16) { self.put(3, x as u64) }
    fn write_u32(&mut self, x: u32) { self.put(4, x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(5, x) }
    fn write_usize(&mut self, x: usize) { self.put(6, x as u64) }
}
pub fn hashed<T: Hash + ?Sized>(t: &T) -> Rec { let mut r = Rec { v: [0; 24], n: 0 }; t.hash(&mut r); r }
pub fn same_hash(a: &Rec, b: &Rec) -> bool { let mut r = a.n == b.n && a.n <= 24; for k in 0..24 { if k < a.n { r &= a.v[k] == b.v[k] } } r }
