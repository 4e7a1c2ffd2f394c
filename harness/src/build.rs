//! Representative states, built through the public API only.
#![allow(dead_code)]
use crate::sym::*;
use array_ops::HasLength;
use sized_chunks::*;

/// A sequence whose element at position k is `base + k`.
#[derive(Clone, Copy)]
pub struct Seq { pub base: u8, pub len: usize }
impl Seq { #[inline(always)] pub fn at(&self, k: usize) -> u8 { self.base.wrapping_add(k as u8) } }

/// Element types the builders can make.
pub trait Elem: Sized {
    /// what Clone adds to the identity
    const BIAS: u8 = 0;
    fn mk(v: u8) -> Self;
    fn id(&self) -> u8;
}
impl Elem for u8 { #[inline(always)] fn mk(v: u8) -> u8 { v } #[inline(always)] fn id(&self) -> u8 { *self } }
impl Elem for Tok { #[inline(always)] fn mk(v: u8) -> Tok { Tok(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }
/// a wider element: misplaced or torn copies show
impl Elem for u32 { #[inline(always)] fn mk(v: u8) -> u32 { v as u32 * 0x01010101 } #[inline(always)] fn id(&self) -> u8 { if (*self as u8) as u32 * 0x01010101 == *self { *self as u8 } else { 0xee } } }

/// wide, with a pattern in every word
#[derive(Clone, Copy)]
pub struct Big(u64, u16, u64);
impl Elem for Big {
    #[inline(always)] fn mk(v: u8) -> Big { Big(v as u64 + 7, v as u16, !(v as u64)) }
    #[inline(always)] fn id(&self) -> u8 { if self.0 == self.1 as u64 + 7 && self.2 == !(self.1 as u64) { self.1 as u8 } else { 0xee } }
}

/// nothing to drop, yet a copy is not the same bytes: one made without Clone shows
pub struct Cl(pub u8);
impl Clone for Cl { #[inline(always)] fn clone(&self) -> Cl { Cl(self.0.wrapping_add(Self::BIAS)) } }
impl Elem for Cl { const BIAS: u8 = 50; #[inline(always)] fn mk(v: u8) -> Cl { Cl(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }

/// nothing to drop and nothing to copy it with: each may be in one place only, as a `&mut` may
pub struct Own(pub u8);
impl Elem for Own { #[inline(always)] fn mk(v: u8) -> Own { Own(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }

/// Layouts given rather than any: where the first element of the next containers built lies, and how many there are.
/// Larger capacities are within reach then.
static mut PINNED: [Option<(usize, usize)>; 2] = [None; 2];
static mut BUILT: usize = 0;
pub fn pinned(a: (usize, usize), b: (usize, usize), f: impl FnOnce()) { unsafe { PINNED = [Some(a), Some(b)]; BUILT = 0; } f() }
fn pin() -> Option<(usize, usize)> { unsafe { if PINNED[0].is_none() { return None } BUILT += 1; PINNED[(BUILT - 1) % 2] } }

/// Any chunk with l elements missing on the left, contents l..r (every reachable left/right pair).
pub fn chunk<A: Elem, const N: usize>() -> (Chunk<A, N>, Seq) { chunk_from(0) }
pub fn chunk_from<A: Elem, const N: usize>(base: u8) -> (Chunk<A, N>, Seq) {
    let mut c: Chunk<A, N> = Chunk::new();
    for i in 0..N { c.push_back(A::mk(base.wrapping_add(i as u8))); }
    let (l, r) = match pin() { Some((l, n)) => (l, l + n), None => (upto(N), upto(N)) };
    assume(l <= r);
    c.drop_right(r);
    c.drop_left(l);
    (c, Seq { base: base.wrapping_add(l as u8), len: r - l })
}
/// Any ring buffer: every origin and length, contents base..base+len.
pub fn ring<A: Elem, const N: usize>() -> (RingBuffer<A, N>, Seq) { ring_from(0) }
pub fn ring_from<A: Elem, const N: usize>(base: u8) -> (RingBuffer<A, N>, Seq) {
    let mut c: RingBuffer<A, N> = RingBuffer::new();
    let (o, len) = match pin() { Some(p) => p, None => (below(if N == 0 { 1 } else { N }), upto(N)) };
    for _ in 0..N { c.push_back(A::mk(255)); }
    c.drop_left(o);
    c.drop_right(0);
    for i in 0..N { c.push_back(A::mk(base.wrapping_add(i as u8))); }
    c.drop_right(len);
    (c, Seq { base, len })
}
/// Any inline array holding at most `cap` elements, contents base..base+len.
pub fn inline<A: Elem, T>(base: u8) -> (InlineArray<A, T>, Seq) {
    let mut c: InlineArray<A, T> = InlineArray::new();
    for i in 0..InlineArray::<A, T>::CAPACITY { c.push(A::mk(base.wrapping_add(i as u8))); }
    let len = match pin() { Some((_, n)) => n, None => upto(InlineArray::<A, T>::CAPACITY) };
    drop(c.split_off(len));
    (c, Seq { base, len })
}
/// c is exactly `s` with position-wise values given by f
#[inline(always)]
pub fn same_chunk<A: Elem, const N: usize>(c: &Chunk<A, N>, len: usize, f: impl Fn(usize) -> u8) -> bool {
    let j = below(N + 1);
    if c.len() != len { return false }
    if j < len { c.as_slice()[j].id() == f(j) } else { true }
}
#[inline(always)]
pub fn same_ring<A: Elem, const N: usize>(c: &RingBuffer<A, N>, len: usize, f: impl Fn(usize) -> u8) -> bool {
    let j = below(N + 1);
    if c.len() != len { return false }
    if j < len { c[j].id() == f(j) } else { true }
}
#[inline(always)]
pub fn same_slice<A: Elem>(c: &[A], len: usize, cap: usize, f: impl Fn(usize) -> u8) -> bool {
    let j = below(cap + 1);
    if c.len() != len { return false }
    if j < len { c[j].id() == f(j) } else { true }
}
