//! Sparse chunks of any occupation and any values.
#![allow(dead_code)]
use crate::cmp::*;
use crate::sp::{fresh, stale, Map};
use crate::sym::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk as S;

/// a plain map from positions to values
pub struct V<const N: usize> { pub p: [bool; N], pub v: [u8; N] }
impl<const N: usize> V<N> {
    pub fn same(&self, o: &V<N>) -> bool { let mut r = true; for i in 0..N { r &= self.p[i] == o.p[i] && (!self.p[i] || P(self.v[i]) == P(o.v[i])) } r }
}
/// any occupation with any values, over slots never written or ones vacated earlier
#[inline(always)]
pub fn any<const N: usize>() -> (S<P, N>, V<N>) where BitsImpl<N>: Bits {
    let (mut c, m): (S<P, N>, Map) = if any_bool() { fresh(0) } else { stale(100) };
    let mut w = V { p: [false; N], v: [0; N] };
    for i in 0..N { if m.has(i) { w.p[i] = true; w.v[i] = any_u8(); c[i] = P(w.v[i]); } }
    (c, w)
}
