//! T03: how many elements an operation moves.
//!
//! Elements are so large that they are only ever moved by block copies; the executor (and the replay binary) add
//! up the bytes. A few moves more than needed, between a call's own places on the stack, are neither here nor there.
use crate::sym::*;
use array_ops::{Array, ArrayMut, HasLength};
use crate::*;
use bitmaps::{Bits, BitsImpl};
use core::cmp::Ordering;
use core::mem::MaybeUninit;
use sized_chunks::{inline_array::InlineArray as I, ring_buffer::RingBuffer as R, sized_chunk::Chunk as C, SparseChunk as S};
const FILE: u32 = 3400000;

const SIZE: usize = 136;
/// What an operation may move besides the elements it is about. Code generation does away with some of that, so
/// that a counterexample has to overstep a lower bound when it is run, and anything else may come close to one.
#[cfg(not(feature = "native"))]
#[inline(always)]
fn few() -> usize { 6 }
#[cfg(feature = "native")]
fn few() -> usize { if std::env::var_os("CONFIRM").is_some() { 1 } else { 12 } }
pub struct Fat(MaybeUninit<[u64; SIZE / 8]>);
fn fat() -> Fat { Fat(MaybeUninit::uninit()) }
/// any window: `l` places free in front, `N - r` behind
fn chunk<const N: usize>() -> (C<Fat, N>, usize, usize) {
    let mut c = C::new();
    for _ in 0..N { c.push_back(fat()); }
    let (l, r) = (upto(N), upto(N)); assume(l <= r);
    c.drop_right(r);
    c.drop_left(l);
    (c, l, r)
}
fn ring<const N: usize>() -> R<Fat, N> {
    let mut c = R::new();
    let (o, n) = (below(N), upto(N));
    for _ in 0..N { c.push_back(fat()); }
    c.drop_left(o);
    c.drop_right(0);
    for _ in 0..N { c.push_back(fat()); }
    c.drop_right(n);
    c
}
type Host<const W: usize> = [u64; W];
fn inline<const W: usize>() -> I<Fat, Host<W>> {
    let mut c: I<Fat, Host<W>> = I::new();
    let cap = I::<Fat, Host<W>>::CAPACITY;
    for _ in 0..cap { c.push(fat()); }
    let n = upto(cap);
    core::mem::forget(c.split_off(n));
    c
}
/// runs f and tells whether it moved no more than `k` elements, once to pick each up and once to put it down
fn within<T>(k: usize, f: impl FnOnce() -> T) -> bool { let a = moved(); core::mem::forget(f()); moved() - a <= (2 * k + few()) * SIZE }
macro_rules! moves { ($k:expr, $c:ident.$($e:tt)*) => { { let k = $k; let ok = within(k, || $c.$($e)*); seen(&$c); check!(ok) } } }
/// the container is looked at once more, so that what was moved in it was not moved in vain
#[inline(always)]
fn seen<T>(_t: &T) { #[cfg(feature = "native")] core::hint::black_box(_t); }
fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }

// --- one chunk
fn chunk_pop<const N: usize>() {
    let (mut c, _, _) = chunk::<N>();
    assume(c.len() > 0);
    if any_bool() { moves!(0, c.pop_back()) } else { moves!(0, c.pop_front()) }
}
fn chunk_drop<const N: usize>() {
    let (mut c, _, _) = chunk::<N>();
    let k = upto(N); assume(k <= c.len());
    match below(4) { 0 => { moves!(0, c.drop_left(k)) } 1 => { moves!(0, c.drop_right(k)) } 2 => { moves!(0, c.clear()) } _ => { assume(k < c.len()); moves!(0, c.set(k, fat())) } }
}
/// while there is room at the end pushed to, nothing else moves; when there is none, the contents do
fn chunk_push<const N: usize>() {
    let (mut c, l, r) = chunk::<N>();
    assume(c.len() < N);
    if any_bool() { let k = if r < N || r == l { 0 } else { c.len() }; moves!(k, c.push_back(fat())) }
    else { let k = if l > 0 || r == l { 0 } else { c.len() }; moves!(k, c.push_front(fat())) }
}
/// filling up from one end moves the contents out of the way once at most
fn chunk_fill<const N: usize>() {
    let (mut c, _, _) = chunk::<N>();
    let (n, back) = (c.len(), any_bool());
    let a = moved();
    for k in 0..N { if n + k < N { if back { c.push_back(fat()) } else { c.push_front(fat()) } } }
    seen(&c);
    check!(moved() - a <= (2 * n + few() * (N - n)) * SIZE);
    core::mem::forget(c);
}
fn chunk_insert<const N: usize>() {
    let (mut c, l, r) = chunk::<N>();
    let i = upto(N); assume(i <= c.len() && c.len() < N);
    let (x, y) = (i, c.len() - i);
    let k = if l > 0 && r < N { min(x, y) } else if l > 0 { x } else { y };
    moves!(k, c.insert(i, fat()))
}
fn chunk_remove<const N: usize>() {
    let (mut c, _, _) = chunk::<N>();
    let i = upto(N); assume(i < c.len());
    let (x, y) = (i, c.len() - i - 1);
    moves!(min(x, y), c.remove(i))
}
struct Fats(usize);
impl Iterator for Fats {
    type Item = Fat;
    fn next(&mut self) -> Option<Fat> { if self.0 == 0 { None } else { self.0 -= 1; Some(fat()) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0, Some(self.0)) }
}
impl ExactSizeIterator for Fats {}
/// a few moves for each item the iterator yields
const EACH: usize = 3;
fn chunk_insert_from<const N: usize, const M: usize>() {
    let (mut c, _, _) = chunk::<N>();
    let (i, m) = (upto(N), upto(M)); assume(i <= c.len() && c.len() + m <= N);
    let n = c.len();
    moves!(n + EACH * m, c.insert_from(i, Fats(m)))
}
// --- two chunks
fn chunk_append<const N: usize>() {
    let (mut c, _, r) = chunk::<N>();
    let (mut d, _, _) = chunk::<N>();
    assume(c.len() + d.len() <= N);
    let k = d.len() + if r + d.len() <= N { 0 } else { c.len() };
    moves!(k, c.append(&mut d));
    seen(&d);
    core::mem::forget((c, d));
}
fn chunk_drain<const N: usize>() {
    let (mut c, l, r) = chunk::<N>();
    let (mut d, _, _) = chunk::<N>();
    let k = upto(N); assume(k <= d.len() && c.len() + k <= N);
    if any_bool() { let s = if r + k <= N { 0 } else { c.len() }; moves!(k + s, c.drain_from_front(&mut d, k)) }
    else { let s = if l >= k { 0 } else { c.len() }; moves!(k + s, c.drain_from_back(&mut d, k)) }
    seen(&d);
    core::mem::forget((c, d));
}
// --- ring buffer
fn ring_ends<const N: usize>() {
    let mut c = ring::<N>();
    let k = upto(N); assume(k <= c.len());
    match below(7) {
        0 => { assume(c.len() < N); moves!(0, c.push_back(fat())) }
        1 => { assume(c.len() < N); moves!(0, c.push_front(fat())) }
        2 => { moves!(0, c.pop_back()) }
        3 => { moves!(0, c.pop_front()) }
        4 => { moves!(0, c.drop_left(k)) }
        5 => { moves!(0, c.drop_right(k)) }
        _ => { assume(k < c.len()); moves!(0, c.set(k, fat())) }
    }
}
fn ring_insert<const N: usize>() {
    let mut c = ring::<N>();
    let i = upto(N); assume(i <= c.len() && c.len() < N);
    let k = min(i, c.len() - i);
    moves!(k, c.insert(i, fat()))
}
fn ring_remove<const N: usize>() {
    let mut c = ring::<N>();
    let i = upto(N); assume(i < c.len());
    let k = min(i, c.len() - i);
    moves!(k, c.remove(i))
}
// --- inline array
fn inline_ends<const W: usize>() {
    let mut c = inline::<W>();
    if any_bool() { assume(!c.is_full()); moves!(0, c.push(fat())) } else { moves!(0, c.pop()) }
}
fn inline_shift<const W: usize>() {
    let mut c = inline::<W>();
    let i = upto(I::<Fat, Host<W>>::CAPACITY); assume(i <= c.len());
    let k = c.len() - i;
    if any_bool() { assume(!c.is_full()); moves!(k, c.insert(i, fat())) } else { moves!(k, c.remove(i)) }
}
// --- sparse chunk
fn sparse<const N: usize>() where BitsImpl<N>: Bits {
    let mut c: S<Fat, N> = S::new();
    for i in 0..N { if any_bool() { c.insert(i, fat()); } }
    let i = below(N);
    match below(3) { 0 => { moves!(0, c.insert(i, fat())) } 1 => { moves!(0, c.remove(i)) } _ => { moves!(0, c.pop()) } }
    core::mem::forget(c);
}
// --- comparisons
static mut COMPARED: usize = 0;
struct Key(u8);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { unsafe { COMPARED += 1 }; self.0.cmp(&o.0) } }
fn log2(n: usize) -> usize { let mut k = 0; while n >> k > 1 { k += 1 } k }
/// any keys in order: looking a place up halves what is left with every comparison or two
fn chunk_ordered<const N: usize>() {
    let mut c: C<Key, N> = C::new();
    let mut last = 0;
    for _ in 0..N - 1 { let v = any_u8(); assume(v >= last); last = v; c.push_back(Key(v)); }
    c.insert_ordered(Key(any_u8()));
    check!(unsafe { COMPARED } <= 2 * log2(N) + 3);
}
fn ring_ordered<const N: usize>() {
    let mut c: R<Key, N> = R::new();
    let mut last = 0;
    for _ in 0..N - 1 { let v = any_u8(); assume(v >= last); last = v; c.push_back(Key(v)); }
    match below(4) {
        0 => c.insert_ordered(Key(any_u8())),
        1 => { let _ = c.slice(..).binary_search(&Key(any_u8())); }
        2 => { let w = any_u8(); let _ = c.slice(..).binary_search_by(|k| k.cmp(&Key(w))); }
        _ => { let w = any_u8(); let _ = c.slice(..).binary_search_by_key(&Key(w), |k| Key(k.0)); }
    }
    check!(unsafe { COMPARED } <= 2 * log2(N) + 3);
}
harness! {
    q_chunk_pop16 = chunk_pop::<16>;
    q_chunk_drop16 = chunk_drop::<16>;
    q_chunk_push16 = chunk_push::<16>;
    q_chunk_fill12 = chunk_fill::<12>;
    q_chunk_insert16 = chunk_insert::<16>;
    q_chunk_remove16 = chunk_remove::<16>;
    q_chunk_insert_from12 = chunk_insert_from::<12, 3>;
    q_chunk_append12 = chunk_append::<12>;
    q_chunk_drain12 = chunk_drain::<12>;
    q_ring_ends12 = ring_ends::<12>;
    q_ring_insert8 = ring_insert::<8>;
    q_ring_remove8 = ring_remove::<8>;
    q_inline_ends12 = inline_ends::<205>;
    q_inline_shift12 = inline_shift::<205>;
    q_sparse6 = sparse::<6>;
    q_chunk_ordered16 = chunk_ordered::<16>;
    q_ring_ordered16 = ring_ordered::<16>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_chunk_push32 = chunk_push::<32>;
    t_chunk_insert32 = chunk_insert::<32>;
    t_chunk_remove32 = chunk_remove::<32>;
    t_chunk_append24 = chunk_append::<24>;
    t_ring_insert12 = ring_insert::<12>;
    t_ring_remove12 = ring_remove::<12>;
} }
