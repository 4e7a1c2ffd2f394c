//! Making a container out of arbitrary bytes: it holds the elements those bytes stand for, in order, up to
//! its capacity; it fails exactly when one of them does; and it never takes more bytes than it announces.
use crate::build::*;
use crate::sym::*;
use crate::*;
use arbitrary::{Arbitrary, Error, Result, Unstructured};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::*;
#[allow(unused_imports)] use array_ops::{Array, HasLength};
const FILE: u32 = 2900000;

/// a counted element; 255 cannot be made
pub struct E(pub Tok);
impl<'a> Arbitrary<'a> for E {
    fn arbitrary(u: &mut Unstructured<'a>) -> Result<E> { let b = u8::arbitrary(u)?; if b == 255 { Err(Error::IncorrectFormat) } else { Ok(E(Tok(b))) } }
    fn size_hint(_: usize) -> (usize, Option<usize>) { (1, Some(1)) }
}
impl Clone for E { fn clone(&self) -> E { E(self.0.clone()) } }
impl Elem for E { #[inline(always)] fn mk(v: u8) -> E { E(Tok(v)) } #[inline(always)] fn id(&self) -> u8 { (self.0).0 } }
/// takes as many bytes as the first one says, up to three
pub struct V(u8);
impl<'a> Arbitrary<'a> for V {
    fn arbitrary(u: &mut Unstructured<'a>) -> Result<V> { let b = u8::arbitrary(u)?; let mut s = b; if b & 1 == 1 { s = s.wrapping_add(u8::arbitrary(u)?) } if b & 2 == 2 { s ^= u8::arbitrary(u)? } Ok(V(s)) }
    fn size_hint(_: usize) -> (usize, Option<usize>) { (1, Some(3)) }
}
impl Clone for V { fn clone(&self) -> V { V(self.0) } }
impl Elem for V { #[inline(always)] fn mk(v: u8) -> V { V(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }
/// announces whatever it likes
static mut HINT: (usize, Option<usize>) = (0, None);
#[derive(Clone)]
pub struct H;
impl<'a> Arbitrary<'a> for H {
    fn arbitrary(_: &mut Unstructured<'a>) -> Result<H> { Ok(H) }
    fn size_hint(_: usize) -> (usize, Option<usize>) { unsafe { HINT } }
}
#[derive(Clone)]
pub struct H1(#[allow(dead_code)] u8);
impl<'a> Arbitrary<'a> for H1 {
    fn arbitrary(_: &mut Unstructured<'a>) -> Result<H1> { Ok(H1(0)) }
    fn size_hint(_: usize) -> (usize, Option<usize>) { unsafe { HINT } }
}

/// a container seen as positions, some of which may be vacant
pub trait Made: for<'a> Arbitrary<'a> { type X: for<'a> Arbitrary<'a>; const CAP: usize; fn n(&self) -> usize; fn pos(&self, k: usize) -> Option<u8>; fn x(x: &Self::X) -> Option<u8>; }
impl<A: Elem + for<'a> Arbitrary<'a>, const N: usize> Made for Chunk<A, N> where BitsImpl<N>: Bits {
    type X = A; const CAP: usize = N;
    #[inline(always)] fn n(&self) -> usize { self.len() }
    #[inline(always)] fn pos(&self, k: usize) -> Option<u8> { self.as_slice().get(k).map(|x| x.id()) }
    #[inline(always)] fn x(x: &A) -> Option<u8> { Some(x.id()) }
}
impl<A: Elem + for<'a> Arbitrary<'a>, const N: usize> Made for RingBuffer<A, N> where BitsImpl<N>: Bits {
    type X = A; const CAP: usize = N;
    #[inline(always)] fn n(&self) -> usize { self.len() }
    #[inline(always)] fn pos(&self, k: usize) -> Option<u8> { self.get(k).map(|x| x.id()) }
    #[inline(always)] fn x(x: &A) -> Option<u8> { Some(x.id()) }
}
impl<A: Elem + for<'a> Arbitrary<'a>, T: 'static> Made for InlineArray<A, T> {
    type X = A; const CAP: usize = InlineArray::<A, T>::CAPACITY;
    #[inline(always)] fn n(&self) -> usize { self.len() }
    #[inline(always)] fn pos(&self, k: usize) -> Option<u8> { self.get(k).map(|x| x.id()) }
    #[inline(always)] fn x(x: &A) -> Option<u8> { Some(x.id()) }
}
impl<A: Elem + Clone + for<'a> Arbitrary<'a>, const N: usize> Made for SparseChunk<A, N> where BitsImpl<N>: Bits {
    type X = Option<A>; const CAP: usize = N;
    #[inline(always)] fn n(&self) -> usize { self.len() }
    #[inline(always)] fn pos(&self, k: usize) -> Option<u8> { self.get(k).map(|x| x.id()) }
    #[inline(always)] fn x(x: &Option<A>) -> Option<u8> { x.as_ref().map(|x| x.id()) }
}
/// what the bytes stand for: v[k] for k < n, or an element that fails
struct Want<const D: usize> { v: [Option<u8>; D], n: usize, bad: bool }
#[inline(always)]
fn want<M: Made, const D: usize>(mut it: impl Iterator<Item = Result<M::X>>) -> Want<D> {
    let mut w = Want { v: [None; D], n: 0, bad: false };
    for k in 0..D {
        if k < M::CAP && w.n == k && !w.bad {
            match it.next() { Some(Ok(x)) => { w.v[k] = M::x(&x); w.n += 1; } Some(Err(_)) => w.bad = true, None => () }
        }
    }
    w
}
#[inline(always)]
fn agree<M: Made, const D: usize>(m: &M, w: &Want<D>) {
    let mut n = 0;
    for k in 0..D { if k < w.n { check!(m.pos(k) == w.v[k]); if w.v[k].is_some() { n += 1 } } else { check!(m.pos(k).is_none()) } }
    check!(m.n() == n && n <= M::CAP);
}
/// D bytes of anything, of which the first n are given; D exceeds what the container can take
fn made<M: Made, const D: usize>() {
    let mut b = [0u8; D];
    for k in 0..D { b[k] = any_u8(); }
    let n = upto(D);
    let mut u = Unstructured::new(&b[..n]);
    let mut v = Unstructured::new(&b[..n]);
    let w: Want<D> = match v.arbitrary_iter::<M::X>() { Ok(i) => want::<M, D>(i), Err(_) => return };
    let r = M::arbitrary(&mut u);
    let used = n - u.len();
    match r { Ok(m) => { check!(!w.bad); agree(&m, &w); cover!(w.n == M::CAP); } Err(_) => check!(w.bad) }
    let (lo, hi) = M::size_hint(0);
    check!(match hi { Some(h) => used <= h, None => true });
    check!(used >= lo || n < lo || w.bad);
    let (lo, hi) = M::size_hint(3);
    check!(match hi { Some(h) => used <= h && lo <= h, None => true });
}
fn rest<M: Made, const D: usize>() {
    let mut b = [0u8; D];
    for k in 0..D { b[k] = any_u8(); }
    let n = upto(D);
    let w: Want<D> = match Unstructured::new(&b[..n]).arbitrary_take_rest_iter::<M::X>() { Ok(i) => want::<M, D>(i), Err(_) => return };
    match M::arbitrary_take_rest(Unstructured::new(&b[..n])) { Ok(m) => { check!(!w.bad); agree(&m, &w); cover!(w.n == M::CAP); } Err(_) => check!(w.bad) }
}
/// whatever is made is released once, whether or not a later element fails
fn owned<M: Made, const D: usize>() {
    let mut b = [0u8; D];
    for k in 0..D { b[k] = any_u8(); }
    let n = upto(D);
    let t = any_u8();
    watch(t);
    let w: Want<D> = match Unstructured::new(&b[..n]).arbitrary_iter::<M::X>() { Ok(i) => want::<M, D>(i), Err(_) => return };
    let all = drops();
    watch(t);
    let mut u = Unstructured::new(&b[..n]);
    match M::arbitrary(&mut u) { Ok(m) => { check!(!w.bad && drops() == 0); agree(&m, &w); drop(m) } Err(_) => check!(w.bad) }
    check!(drops() == all);
}
fn owned_rest<M: Made, const D: usize>() {
    let mut b = [0u8; D];
    for k in 0..D { b[k] = any_u8(); }
    let n = upto(D);
    let t = any_u8();
    watch(t);
    let w: Want<D> = match Unstructured::new(&b[..n]).arbitrary_take_rest_iter::<M::X>() { Ok(i) => want::<M, D>(i), Err(_) => return };
    let all = drops();
    watch(t);
    cover!(w.bad && w.n > 0);
    match M::arbitrary_take_rest(Unstructured::new(&b[..n])) { Ok(m) => { check!(!w.bad && drops() == 0); agree(&m, &w); drop(m) } Err(_) => check!(w.bad) }
    check!(drops() == all);
}
/// the announced bounds are honest for any the element announces, and asking never fails
fn hint<M: for<'a> Arbitrary<'a>>(cap: usize, opt: bool) {
    let (lo, hi) = (any_usize(), any_usize());
    let none = any_bool();
    assume(lo <= hi && hi < usize::MAX);
    unsafe { HINT = (lo, if none { None } else { Some(hi) }); }
    let (l, h) = M::size_hint(0);
    check!(l <= 1);
    // an element is announced by one byte; an optional one has one more
    let each = hi as u128 + if opt { 2 } else { 1 };
    check!(match h { Some(h) => !none && h as u128 >= each * cap as u128, None => true });
}
harness! {
    q_c_made3 = made::<Chunk<u8, 3>, 8>;
    q_c_made2_v = made::<Chunk<V, 2>, 9>;
    q_c_rest3 = rest::<Chunk<u8, 3>, 8>;
    q_c_owned2 = owned::<Chunk<E, 2>, 5>;
    q_c_owned_rest2 = owned_rest::<Chunk<E, 2>, 5>;
    q_c_hint4 = || hint::<Chunk<H1, 4>>(4, false);
    q_r_made3 = made::<RingBuffer<u8, 3>, 8>;
    q_r_made2_v = made::<RingBuffer<V, 2>, 9>;
    q_r_rest3 = rest::<RingBuffer<u8, 3>, 8>;
    q_r_owned2 = owned::<RingBuffer<E, 2>, 5>;
    q_r_owned_rest2 = owned_rest::<RingBuffer<E, 2>, 5>;
    q_r_hint4 = || hint::<RingBuffer<H1, 4>>(4, false);
    q_s_made2 = made::<SparseChunk<u8, 2>, 7>;
    q_s_made3 = made::<SparseChunk<u8, 3>, 10>;
    q_s_rest2 = rest::<SparseChunk<u8, 2>, 7>;
    q_s_owned2 = owned::<SparseChunk<E, 2>, 7>;
    q_s_owned_rest2 = owned_rest::<SparseChunk<E, 2>, 7>;
    q_s_hint4 = || hint::<SparseChunk<H1, 4>>(4, true);
    q_i_made3 = made::<InlineArray<u8, [u8; 11]>, 8>;
    q_i_made2_v = made::<InlineArray<V, [u8; 10]>, 9>;
    q_i_rest3 = rest::<InlineArray<u8, [u8; 11]>, 8>;
    q_i_owned2 = owned::<InlineArray<E, [u8; 10]>, 5>;
    q_i_owned_rest2 = owned_rest::<InlineArray<E, [u8; 10]>, 5>;
    q_c_made1 = made::<Chunk<u8, 1>, 4>;
    q_r_made1 = made::<RingBuffer<u8, 1>, 4>;
    q_s_made1 = made::<SparseChunk<u8, 1>, 5>;
    q_i_made1 = made::<InlineArray<u8, [u8; 9]>, 4>;
    q_i_none = made::<InlineArray<u8, [u8; 8]>, 4>;
    q_i_none_rest = rest::<InlineArray<u8, [u8; 8]>, 4>;
    q_i_none_owned = owned::<InlineArray<E, [u8; 8]>, 4>;
    q_i_none_owned_rest = owned_rest::<InlineArray<E, [u8; 8]>, 4>;
    q_i_hint = || hint::<InlineArray<H1, [u64; 2]>>(InlineArray::<H1, [u64; 2]>::CAPACITY, false);
    q_i_hint_sizeless = || hint::<InlineArray<H, [u64; 2]>>(usize::MAX, false);
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_c_made6 = made::<Chunk<u8, 6>, 14>;
    t_c_made4_v = made::<Chunk<V, 4>, 17>;
    t_c_owned4 = owned::<Chunk<E, 4>, 9>;
    t_r_made6 = made::<RingBuffer<u8, 6>, 14>;
    t_c_owned_rest4 = owned_rest::<Chunk<E, 4>, 9>;
    t_r_owned_rest4 = owned_rest::<RingBuffer<E, 4>, 9>;
    t_s_owned_rest3 = owned_rest::<SparseChunk<E, 3>, 10>;
    t_r_owned4 = owned::<RingBuffer<E, 4>, 9>;
    t_s_made4 = made::<SparseChunk<u8, 4>, 13>;
    t_s_owned3 = owned::<SparseChunk<E, 3>, 10>;
} }
