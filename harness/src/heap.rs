//! H01: a container is where it is, all of it, and asks nobody for memory.
use crate::build::*;
use crate::ia::*;
use crate::q::*;
use crate::sp;
use crate::sym::*;
use crate::*;
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
use core::hash::{Hash, Hasher};
use core::mem::{size_of, MaybeUninit};
use sized_chunks::{InlineArray as I, *};
const FILE: u32 = 3500000;

/// somewhere else, leaving rubbish behind
#[inline(always)]
fn moved_away<T>(t: T) -> T {
    let mut a = MaybeUninit::new(t);
    let mut b = MaybeUninit::<T>::uninit();
    unsafe {
        core::ptr::copy_nonoverlapping(a.as_ptr(), b.as_mut_ptr(), 1);
        core::ptr::write_bytes(a.as_mut_ptr() as *mut u8, 0xa5, size_of::<T>());
        b.assume_init()
    }
}
struct Sum(u64);
impl Hasher for Sum { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { self.0 += b.len() as u64 } fn write_usize(&mut self, n: usize) { self.0 += n as u64 } fn write_u8(&mut self, n: u8) { self.0 += n as u64 } }
/// moved and looked at again
#[inline(always)]
fn keeps<Q: Deq>(q: Q) -> Q {
    let (n, j) = (q.len(), below(Q::CAP));
    let v = if j < n { q.at(j).id() } else { 0 };
    let q = moved_away(q);
    check!(q.len() == n && (j >= n || q.at(j).id() == v));
    q
}
fn edit<Q: Deq<A = Tok>>() {
    let (q, s) = Q::any(0);
    let a = allocated();
    let mut q = keeps(q);
    let i = upto(Q::CAP);
    let room = s.len < Q::CAP;
    match below(10) {
        0 => { assume(room); q.push_back(Tok(200)) }
        1 => { assume(room); q.push_front(Tok(200)) }
        2 => { assume(s.len > 0); drop(q.pop_back()) }
        3 => { assume(s.len > 0); drop(q.pop_front()) }
        4 => { assume(room && i <= s.len); q.insert(i, Tok(200)) }
        5 => { assume(i < s.len); drop(q.remove(i)) }
        6 => { assume(i < s.len); drop(q.set(i, Tok(200))) }
        7 => { assume(i <= s.len); q.drop_left(i) }
        8 => { assume(i <= s.len); q.drop_right(i) }
        _ => q.clear(),
    }
    drop(keeps(q));
    check!(allocated() == a);
}
fn two<Q: Deq<A = Tok>>() {
    let (q, s) = Q::any(0);
    let (o, t) = Q::any(100);
    let a = allocated();
    let (mut q, mut o) = (keeps(q), keeps(o));
    let i = upto(Q::CAP);
    match below(5) {
        0 => { assume(i <= t.len && s.len + i <= Q::CAP); q.drain_from_front(&mut o, i) }
        1 => { assume(i <= t.len && s.len + i <= Q::CAP); q.drain_from_back(&mut o, i) }
        2 => { assume(s.len + t.len <= Q::CAP); q.append(&mut o) }
        3 => { assume(i <= t.len); drop(keeps(Q::from_front(&mut o, i))) }
        _ => { assume(i <= s.len); drop(keeps(q.split_off(i))) }
    }
    drop(keeps(q));
    drop(keeps(o));
    check!(allocated() == a);
}
fn fill<Q: Deq<A = Tok> + Clone>() {
    let (q, s) = Q::any(0);
    let a = allocated();
    let mut q = keeps(q);
    let (i, n) = (upto(Q::CAP), upto(Q::CAP));
    match below(6) {
        0 => { assume(i <= s.len && s.len + n <= Q::CAP); q.insert_from(i, src::<Tok>(150, n)) }
        1 => { assume(s.len + n <= Q::CAP); q.extend(src::<Tok>(150, n)) }
        2 => drop(keeps(Q::from_iter(src::<Tok>(150, n)))),
        3 => { assume(s.len + n <= Q::CAP); q.extend(blind(src::<Tok>(150, n))) }
        4 => drop(keeps(Q::from_iter(blind(src::<Tok>(150, n))))),
        _ => drop(keeps(q.clone())),
    }
    drop(keeps(q));
    check!(allocated() == a);
}
fn walk<Q: Deq<A = Tok>>() {
    let (q, s) = Q::any(0);
    let a = allocated();
    let mut q = keeps(q);
    let mut k = 0;
    match below(4) {
        0 => for v in moved_away(q.iter()) { check!(v.0 == s.at(k)); k += 1 },
        1 => for v in moved_away(q.iter_mut()) { check!(v.0 == s.at(k)); k += 1 },
        // a consuming iterator takes the container with it
        2 => { let mut it = moved_away(q.into_it()); while let Some(v) = it.next() { check!(v.0 == s.at(k)); k += 1; it = moved_away(it) } check!(k == s.len && allocated() == a); return }
        _ => { let mut it = q.drain(); while let Some(v) = it.next() { check!(v.0 == s.at(k)); k += 1; it = moved_away(it) } }
    }
    check!(k == s.len);
    drop(q);
    check!(allocated() == a);
}
fn look<Q: Deq<A = u8> + PartialEq + Ord + Hash>() {
    let (q, _) = Q::any(0);
    let (o, _) = Q::any(1);
    let a = allocated();
    match below(3) { 0 => { let _ = q == o; } 1 => { let _ = q.cmp(&o); } _ => q.hash(&mut Sum(0)) }
    check!(allocated() == a);
}
fn view<const N: usize>() {
    let (q, s) = ring::<u8, N>();
    let a = allocated();
    let mut q = keeps(q);
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let j = below(N);
    match below(4) {
        0 => { let v = moved_away(q.slice(x..y)); check!(v.len() == y - x && (j >= y - x || v[j] == s.at(x + j))); }
        1 => { let v = moved_away(q.slice_mut(x..y)); check!(v.len() == y - x && (j >= y - x || v[j] == s.at(x + j))); }
        2 => { let v = keeps(q.slice(x..y).to_owned()); check!(HasLength::len(&v) == y - x && (j >= y - x || v[j] == s.at(x + j))); }
        _ => { assume(x < y && y - x <= 3); q.slice_mut(x..y).sort_unstable() }
    }
    drop(keeps(q));
    check!(allocated() == a);
}
fn ordered<Q: Deq<A = Tok>>() {
    let (q, s) = Q::any(0);
    assume(s.len < Q::CAP);
    let a = allocated();
    let mut q = keeps(q);
    q.insert_ordered(Tok(any_u8()));
    drop(keeps(q));
    check!(allocated() == a);
}
// --- sparse chunks
#[inline(always)]
fn keep_sparse<const N: usize>(q: S<N>) -> S<N> where BitsImpl<N>: Bits {
    let (n, j) = (q.len(), below(N));
    let v = q.get(j).map(|t| t.0);
    let q = moved_away(q);
    check!(q.len() == n && q.get(j).map(|t| t.0) == v);
    q
}
type S<const N: usize> = SparseChunk<Tok, N>;
fn sparse<const N: usize>() where BitsImpl<N>: Bits {
    let (q, m) = sp::stale::<Tok, N>(0);
    let a = allocated();
    let mut q = keep_sparse(q);
    let i = below(N);
    match below(8) {
        0 => drop(q.insert(i, Tok(200))),
        1 => drop(q.remove(i)),
        2 => drop(q.pop()),
        3 => drop(keep_sparse(q.clone())),
        4 => { let mut k = 0; for v in q.iter() { k += 1; check!(m.has(v.0 as usize)) } check!(k == m.count(N)) }
        5 => { let mut k = 0; for v in moved_away(q.option_iter()) { k += v.is_some() as usize } check!(k == m.count(N)) }
        6 => { let mut k = 0; let mut it = q.drain(); while let Some(v) = it.next() { check!(m.has(v.0 as usize)); k += 1; it = moved_away(it) } check!(k == m.count(N) && allocated() == a); return }
        _ => { let mut k = 0; let mut it = q.option_drain(); while let Some(v) = it.next() { check!(v.is_some() == m.has(k)); k += 1; it = moved_away(it) } check!(k == N && allocated() == a); return }
    }
    drop(keep_sparse(q));
    check!(allocated() == a);
}
fn sparse_collect<const N: usize>() where BitsImpl<N>: Bits {
    let a = allocated();
    let m = any_u8() as usize;
    let it = (0..N).map(|i| if m >> i & 1 == 1 { Some(Tok(i as u8)) } else { None });
    let q: S<N> = if any_bool() { it.collect() } else { it.filter(|_| true).collect() };
    let p = keep_sparse(q);
    let mut same = true;
    for i in 0..N { same &= p.get(i).is_some() == (m >> i & 1 == 1) }
    check!(same);
    drop(p);
    check!(allocated() == a);
}
// --- inline arrays
#[inline(always)]
fn keep_inline<T>(q: I<Tok, T>) -> I<Tok, T> {
    let (n, j) = (q.len(), below(I::<Tok, T>::CAPACITY));
    let v = if j < n { q[j].0 } else { 0 };
    let q = moved_away(q);
    check!(q.len() == n && (j >= n || q[j].0 == v));
    q
}
fn array<T>() {
    let (q, s) = inline::<Tok, T>(0);
    let cap = I::<Tok, T>::CAPACITY;
    let a = allocated();
    let mut q = keep_inline(q);
    let i = upto(cap);
    let mut k = 0;
    match below(11) {
        0 => { assume(s.len < cap); q.push(Tok(200)) }
        1 => drop(q.pop()),
        2 => { assume(s.len < cap && i <= s.len); q.insert(i, Tok(200)) }
        3 => drop(q.remove(i)),
        4 => { assume(i <= s.len); drop(keep_inline(q.split_off(i))) }
        5 => drop(keep_inline(q.clone())),
        6 => { let mut it = moved_away(q.into_iter()); while let Some(v) = it.next() { check!(v.0 == s.at(k)); k += 1; it = moved_away(it) } check!(k == s.len && allocated() == a); return }
        7 => { let mut it = q.drain(); while let Some(v) = it.next() { check!(v.0 == s.at(k)); k += 1; it = moved_away(it) } check!(k == s.len) }
        8 => { assume(s.len + i <= cap); q.extend(src::<Tok>(150, i)) }
        9 => { assume(s.len + i <= cap); q.extend(blind(src::<Tok>(150, i))) }
        _ => drop(keep_inline(blind(src::<Tok>(150, i)).collect::<I<Tok, T>>())),
    }
    drop(keep_inline(q));
    check!(allocated() == a);
}
fn converted<T, const N: usize>() {
    let (q, s) = inline::<Tok, T>(0);
    let a = allocated();
    let mut q = keep_inline(q);
    if any_bool() { let c = keeps(Chunk::<Tok, N>::from(&mut q)); check!(c.len() == s.len); drop(keep_inline(q)); }
    else { let c = keeps(Chunk::<Tok, N>::from(q)); check!(c.len() == s.len); }
    check!(allocated() == a);
}
// --- sizes
const W: usize = size_of::<usize>();
fn sizes() {
    check!(size_of::<Chunk<u64, 5>>() == 2 * W + 40);
    check!(size_of::<Chunk<u64, 64>>() == 2 * W + 64 * 8);
    check!(size_of::<Chunk<[u64; 3], 7>>() == 2 * W + 7 * 24);
    check!(size_of::<Chunk<(), 7>>() == 2 * W);
    check!(size_of::<I<u8, [u64; 3]>>() == 24);
    check!(size_of::<I<u64, [u64; 7]>>() == 56);
    check!(size_of::<I<[u64; 3], [u64; 9]>>() == 72);
    // making one costs nothing either, whatever its size
    let a = allocated();
    let _c: Chunk<u64, 64> = Chunk::new();
    let _r: RingBuffer<u64, 64> = RingBuffer::new();
    let _s: SparseChunk<u64, 64> = SparseChunk::new();
    let _i: I<u64, [u64; 64]> = I::new();
    check!(allocated() == a);
}
harness! {
    q_pin_chunk_edit_wide40 = || build::pinned((9, 22), (3, 14), edit::<Chunk<Tok, 40>>);
    q_pin_chunk_edit_wide40b = || build::pinned((25, 15), (28, 12), edit::<Chunk<Tok, 40>>);
    q_pin_ring_edit_wide40 = || build::pinned((33, 22), (30, 14), edit::<RingBuffer<Tok, 40>>);
    q_pin_ring_edit_wide40b = || build::pinned((5, 30), (38, 10), edit::<RingBuffer<Tok, 40>>);
    q_pin_chunk_two_wide40 = || build::pinned((9, 22), (3, 14), two::<Chunk<Tok, 40>>);
    q_pin_chunk_two_wide40b = || build::pinned((25, 15), (28, 12), two::<Chunk<Tok, 40>>);
    q_pin_ring_two_wide40 = || build::pinned((33, 22), (30, 14), two::<RingBuffer<Tok, 40>>);
    q_pin_ring_two_wide40b = || build::pinned((5, 30), (38, 10), two::<RingBuffer<Tok, 40>>);
    q_pin_chunk_fill_wide40 = || build::pinned((9, 22), (3, 14), fill::<Chunk<Tok, 40>>);
    q_pin_chunk_fill_wide40b = || build::pinned((25, 15), (28, 12), fill::<Chunk<Tok, 40>>);
    q_pin_ring_fill_wide40 = || build::pinned((33, 22), (30, 14), fill::<RingBuffer<Tok, 40>>);
    q_pin_ring_fill_wide40b = || build::pinned((5, 30), (38, 10), fill::<RingBuffer<Tok, 40>>);
    q_pin_chunk_look_wide40 = || build::pinned((9, 22), (3, 14), look::<Chunk<u8, 40>>);
    q_pin_chunk_look_wide40b = || build::pinned((25, 15), (28, 12), look::<Chunk<u8, 40>>);
    q_pin_ring_look_wide40 = || build::pinned((33, 22), (30, 14), look::<RingBuffer<u8, 40>>);
    q_pin_ring_look_wide40b = || build::pinned((5, 30), (38, 10), look::<RingBuffer<u8, 40>>);
    q_pin_chunk_ordered_wide40 = || build::pinned((9, 22), (3, 14), ordered::<Chunk<Tok, 40>>);
    q_pin_chunk_ordered_wide40b = || build::pinned((25, 15), (28, 12), ordered::<Chunk<Tok, 40>>);
    q_pin_ring_ordered_wide40 = || build::pinned((33, 22), (30, 14), ordered::<RingBuffer<Tok, 40>>);
    q_pin_ring_ordered_wide40b = || build::pinned((5, 30), (38, 10), ordered::<RingBuffer<Tok, 40>>);
    q_pin_view_wide40 = || build::pinned((9, 22), (3, 14), view::<40>);
    q_pin_view_wide40b = || build::pinned((25, 15), (28, 12), view::<40>);
    q_chunk_edit4 = edit::<Chunk<Tok, 4>>;
    q_ring_edit4 = edit::<RingBuffer<Tok, 4>>;
    q_chunk_two3 = two::<Chunk<Tok, 3>>;
    q_ring_two3 = two::<RingBuffer<Tok, 3>>;
    q_chunk_fill3 = fill::<Chunk<Tok, 3>>;
    q_ring_fill3 = fill::<RingBuffer<Tok, 3>>;
    q_chunk_walk4 = walk::<Chunk<Tok, 4>>;
    q_ring_walk4 = walk::<RingBuffer<Tok, 4>>;
    q_chunk_look4 = look::<Chunk<u8, 4>>;
    q_ring_look4 = look::<RingBuffer<u8, 4>>;
    q_chunk_ordered4 = ordered::<Chunk<Tok, 4>>;
    q_ring_ordered4 = ordered::<RingBuffer<Tok, 4>>;
    q_view4 = view::<4>;
    q_sparse4 = sparse::<4>;
    q_sparse_collect5 = sparse_collect::<5>;
    q_array8 = array::<[u64; 2]>;
    q_array4 = array::<[u32; 3]>;
    q_converted4 = converted::<[u64; 2], 8>;
    q_sizes1 = sizes;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_chunk_edit8 = edit::<Chunk<Tok, 8>>;
    t_ring_edit8 = edit::<RingBuffer<Tok, 8>>;
    t_chunk_two5 = two::<Chunk<Tok, 5>>;
    t_ring_two5 = two::<RingBuffer<Tok, 5>>;
    t_sparse8 = sparse::<8>;
} }
