//! What `Chunk` and `RingBuffer` have in common, so that one harness text
//! serves both.  Every method forwards to the real one.
#![allow(dead_code)]
use crate::build::*;
use crate::sym::*;
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::*;

pub trait Deq: Sized + Default {
    type A: Elem;
    const CAP: usize;
    /// every reachable layout; element k is base+k of the returned Seq
    fn any(base: u8) -> (Self, Seq);
    /// an empty one in every reachable layout
    fn new() -> Self;
    fn unit(a: Self::A) -> Self;
    fn pair(a: Self::A, b: Self::A) -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn at(&self, i: usize) -> &Self::A;
    fn at_mut(&mut self, i: usize) -> &mut Self::A;
    fn get(&self, i: usize) -> Option<&Self::A>;
    fn get_mut(&mut self, i: usize) -> Option<&mut Self::A>;
    fn first(&self) -> Option<&Self::A>;
    fn last(&self) -> Option<&Self::A>;
    fn first_mut(&mut self) -> Option<&mut Self::A>;
    fn last_mut(&mut self) -> Option<&mut Self::A>;
    fn swap(&mut self, i: usize, j: usize);
    fn push_back(&mut self, a: Self::A);
    fn push_front(&mut self, a: Self::A);
    /// None: empty (Chunk: panicked)
    fn pop_back(&mut self) -> Option<Self::A>;
    fn pop_front(&mut self) -> Option<Self::A>;
    fn insert(&mut self, i: usize, a: Self::A);
    fn remove(&mut self, i: usize) -> Self::A;
    fn set(&mut self, i: usize, a: Self::A) -> Self::A;
    fn drop_left(&mut self, i: usize);
    fn drop_right(&mut self, i: usize);
    fn split_off(&mut self, i: usize) -> Self;
    fn append(&mut self, o: &mut Self);
    fn drain_from_front(&mut self, o: &mut Self, n: usize);
    fn drain_from_back(&mut self, o: &mut Self, n: usize);
    fn drain_from(o: &mut Self) -> Self;
    fn from_front(o: &mut Self, n: usize) -> Self;
    fn from_back(o: &mut Self, n: usize) -> Self;
    fn insert_from<I: IntoIterator<Item = Self::A>>(&mut self, i: usize, it: I) where I::IntoIter: ExactSizeIterator;
    fn insert_ordered(&mut self, a: Self::A) where Self::A: Ord;
    fn extend<I: IntoIterator<Item = Self::A>>(&mut self, it: I);
    fn from_iter<I: IntoIterator<Item = Self::A>>(it: I) -> Self;
    fn collect_from<I: Iterator<Item = Self::A>>(it: &mut I, n: usize) -> Self;
    fn clear(&mut self);
    type It<'a>: DoubleEndedIterator<Item = &'a Self::A> + ExactSizeIterator where Self: 'a;
    type ItMut<'a>: DoubleEndedIterator<Item = &'a mut Self::A> + ExactSizeIterator where Self: 'a;
    type Own: DoubleEndedIterator<Item = Self::A> + ExactSizeIterator;
    type Drain<'a>: DoubleEndedIterator<Item = Self::A> + ExactSizeIterator where Self: 'a;
    fn iter(&self) -> Self::It<'_>;
    fn iter_mut(&mut self) -> Self::ItMut<'_>;
    fn into_it(self) -> Self::Own;
    fn drain(&mut self) -> Self::Drain<'_>;
    fn is_ring() -> bool;
}

impl<A: Elem, const N: usize> Deq for Chunk<A, N> {
    type A = A;
    const CAP: usize = N;
    #[inline(always)] fn any(base: u8) -> (Self, Seq) { chunk_from(base) }
    #[inline(always)] fn new() -> Self { Chunk::new() }
    #[inline(always)] fn unit(a: A) -> Self { Chunk::unit(a) }
    #[inline(always)] fn pair(a: A, b: A) -> Self { Chunk::pair(a, b) }
    #[inline(always)] fn len(&self) -> usize { Chunk::len(self) }
    #[inline(always)] fn is_empty(&self) -> bool { Chunk::is_empty(self) }
    #[inline(always)] fn is_full(&self) -> bool { Chunk::is_full(self) }
    #[inline(always)] fn at(&self, i: usize) -> &A { &self[i] }
    #[inline(always)] fn at_mut(&mut self, i: usize) -> &mut A { &mut self[i] }
    #[inline(always)] fn get(&self, i: usize) -> Option<&A> { <[A]>::get(self, i) }
    #[inline(always)] fn get_mut(&mut self, i: usize) -> Option<&mut A> { <[A]>::get_mut(self, i) }
    #[inline(always)] fn first(&self) -> Option<&A> { <[A]>::first(self) }
    #[inline(always)] fn last(&self) -> Option<&A> { <[A]>::last(self) }
    #[inline(always)] fn first_mut(&mut self) -> Option<&mut A> { <[A]>::first_mut(self) }
    #[inline(always)] fn last_mut(&mut self) -> Option<&mut A> { <[A]>::last_mut(self) }
    #[inline(always)] fn swap(&mut self, i: usize, j: usize) { <[A]>::swap(self, i, j) }
    #[inline(always)] fn push_back(&mut self, a: A) { Chunk::push_back(self, a) }
    #[inline(always)] fn push_front(&mut self, a: A) { Chunk::push_front(self, a) }
    #[inline(always)] fn pop_back(&mut self) -> Option<A> { Some(Chunk::pop_back(self)) }
    #[inline(always)] fn pop_front(&mut self) -> Option<A> { Some(Chunk::pop_front(self)) }
    #[inline(always)] fn insert(&mut self, i: usize, a: A) { Chunk::insert(self, i, a) }
    #[inline(always)] fn remove(&mut self, i: usize) -> A { Chunk::remove(self, i) }
    #[inline(always)] fn set(&mut self, i: usize, a: A) -> A { Chunk::set(self, i, a) }
    #[inline(always)] fn drop_left(&mut self, i: usize) { Chunk::drop_left(self, i) }
    #[inline(always)] fn drop_right(&mut self, i: usize) { Chunk::drop_right(self, i) }
    #[inline(always)] fn split_off(&mut self, i: usize) -> Self { Chunk::split_off(self, i) }
    #[inline(always)] fn append(&mut self, o: &mut Self) { Chunk::append(self, o) }
    #[inline(always)] fn drain_from_front(&mut self, o: &mut Self, n: usize) { Chunk::drain_from_front(self, o, n) }
    #[inline(always)] fn drain_from_back(&mut self, o: &mut Self, n: usize) { Chunk::drain_from_back(self, o, n) }
    #[inline(always)] fn drain_from(o: &mut Self) -> Self { Chunk::drain_from(o) }
    #[inline(always)] fn from_front(o: &mut Self, n: usize) -> Self { Chunk::from_front(o, n) }
    #[inline(always)] fn from_back(o: &mut Self, n: usize) -> Self { Chunk::from_back(o, n) }
    #[inline(always)] fn insert_from<I: IntoIterator<Item = A>>(&mut self, i: usize, it: I) where I::IntoIter: ExactSizeIterator { Chunk::insert_from(self, i, it) }
    #[inline(always)] fn insert_ordered(&mut self, a: A) where A: Ord { Chunk::insert_ordered(self, a) }
    #[inline(always)] fn extend<I: IntoIterator<Item = A>>(&mut self, it: I) { Extend::extend(self, it) }
    #[inline(always)] fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self { it.into_iter().collect() }
    #[inline(always)] fn collect_from<I: Iterator<Item = A>>(it: &mut I, n: usize) -> Self { Chunk::collect_from(it, n) }
    #[inline(always)] fn clear(&mut self) { Chunk::clear(self) }
    type It<'a> = core::slice::Iter<'a, A> where A: 'a;
    type ItMut<'a> = core::slice::IterMut<'a, A> where A: 'a;
    type Own = sized_chunk::Iter<A, N>;
    type Drain<'a> = sized_chunk::Drain<'a, A, N> where A: 'a;
    #[inline(always)] fn iter(&self) -> Self::It<'_> { self.into_iter() }
    #[inline(always)] fn iter_mut(&mut self) -> Self::ItMut<'_> { self.into_iter() }
    #[inline(always)] fn into_it(self) -> Self::Own { self.into_iter() }
    #[inline(always)] fn drain(&mut self) -> Self::Drain<'_> { Chunk::drain(self) }
    fn is_ring() -> bool { false }
}
impl<A: Elem, const N: usize> Deq for RingBuffer<A, N> {
    type A = A;
    const CAP: usize = N;
    #[inline(always)] fn any(base: u8) -> (Self, Seq) { ring_from(base) }
    #[inline(always)] fn new() -> Self { RingBuffer::new() }
    #[inline(always)] fn unit(a: A) -> Self { RingBuffer::unit(a) }
    #[inline(always)] fn pair(a: A, b: A) -> Self { RingBuffer::pair(a, b) }
    #[inline(always)] fn len(&self) -> usize { HasLength::len(self) }
    #[inline(always)] fn is_empty(&self) -> bool { HasLength::is_empty(self) }
    #[inline(always)] fn is_full(&self) -> bool { RingBuffer::is_full(self) }
    #[inline(always)] fn at(&self, i: usize) -> &A { &self[i] }
    #[inline(always)] fn at_mut(&mut self, i: usize) -> &mut A { &mut self[i] }
    #[inline(always)] fn get(&self, i: usize) -> Option<&A> { Array::get(self, i) }
    #[inline(always)] fn get_mut(&mut self, i: usize) -> Option<&mut A> { ArrayMut::get_mut(self, i) }
    #[inline(always)] fn first(&self) -> Option<&A> { Array::first(self) }
    #[inline(always)] fn last(&self) -> Option<&A> { Array::last(self) }
    #[inline(always)] fn first_mut(&mut self) -> Option<&mut A> { ArrayMut::first_mut(self) }
    #[inline(always)] fn last_mut(&mut self) -> Option<&mut A> { ArrayMut::last_mut(self) }
    #[inline(always)] fn swap(&mut self, i: usize, j: usize) { ArrayMut::swap(self, i, j) }
    #[inline(always)] fn push_back(&mut self, a: A) { RingBuffer::push_back(self, a) }
    #[inline(always)] fn push_front(&mut self, a: A) { RingBuffer::push_front(self, a) }
    #[inline(always)] fn pop_back(&mut self) -> Option<A> { RingBuffer::pop_back(self) }
    #[inline(always)] fn pop_front(&mut self) -> Option<A> { RingBuffer::pop_front(self) }
    #[inline(always)] fn insert(&mut self, i: usize, a: A) { RingBuffer::insert(self, i, a) }
    #[inline(always)] fn remove(&mut self, i: usize) -> A { RingBuffer::remove(self, i) }
    #[inline(always)] fn set(&mut self, i: usize, a: A) -> A { match ArrayMut::set(self, i, a) { Some(a) => a, None => panic!() } }
    #[inline(always)] fn drop_left(&mut self, i: usize) { RingBuffer::drop_left(self, i) }
    #[inline(always)] fn drop_right(&mut self, i: usize) { RingBuffer::drop_right(self, i) }
    #[inline(always)] fn split_off(&mut self, i: usize) -> Self { RingBuffer::split_off(self, i) }
    #[inline(always)] fn append(&mut self, o: &mut Self) { RingBuffer::append(self, o) }
    #[inline(always)] fn drain_from_front(&mut self, o: &mut Self, n: usize) { RingBuffer::drain_from_front(self, o, n) }
    #[inline(always)] fn drain_from_back(&mut self, o: &mut Self, n: usize) { RingBuffer::drain_from_back(self, o, n) }
    #[inline(always)] fn drain_from(o: &mut Self) -> Self { RingBuffer::drain_from(o) }
    #[inline(always)] fn from_front(o: &mut Self, n: usize) -> Self { RingBuffer::from_front(o, n) }
    #[inline(always)] fn from_back(o: &mut Self, n: usize) -> Self { RingBuffer::from_back(o, n) }
    #[inline(always)] fn insert_from<I: IntoIterator<Item = A>>(&mut self, i: usize, it: I) where I::IntoIter: ExactSizeIterator { RingBuffer::insert_from(self, i, it) }
    #[inline(always)] fn insert_ordered(&mut self, a: A) where A: Ord { RingBuffer::insert_ordered(self, a) }
    #[inline(always)] fn extend<I: IntoIterator<Item = A>>(&mut self, it: I) { Extend::extend(self, it) }
    #[inline(always)] fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self { it.into_iter().collect() }
    #[inline(always)] fn collect_from<I: Iterator<Item = A>>(it: &mut I, n: usize) -> Self { RingBuffer::collect_from(it, n) }
    #[inline(always)] fn clear(&mut self) { RingBuffer::clear(self) }
    type It<'a> = ring_buffer::Iter<'a, A, N> where A: 'a;
    type ItMut<'a> = ring_buffer::IterMut<'a, A, N> where A: 'a;
    type Own = ring_buffer::OwnedIter<A, N>;
    type Drain<'a> = ring_buffer::Drain<'a, A, N> where A: 'a;
    #[inline(always)] fn iter(&self) -> Self::It<'_> { self.into_iter() }
    #[inline(always)] fn iter_mut(&mut self) -> Self::ItMut<'_> { self.into_iter() }
    #[inline(always)] fn into_it(self) -> Self::Own { self.into_iter() }
    #[inline(always)] fn drain(&mut self) -> Self::Drain<'_> { RingBuffer::drain(self) }
    fn is_ring() -> bool { true }
}

/// q holds exactly the `len` elements f(0), f(1), ... (decided for every position at once)
#[inline(always)]
pub fn same<Q: Deq>(q: &Q, len: usize, f: impl Fn(usize) -> u8) -> bool {
    if q.len() != len { return false }
    let j = below(Q::CAP + 1);
    if j < len { q.at(j).id() == f(j) } else { true }
}
/// counts down, yielding base, base+1, ...
pub struct Src { pub next: u8, pub left: usize }
impl Src { pub fn new(base: u8, n: usize) -> Src { Src { next: base, left: n } } }
pub struct SrcOf<A>(pub Src, pub core::marker::PhantomData<A>);
pub fn src<A: Elem>(base: u8, n: usize) -> SrcOf<A> { SrcOf(Src::new(base, n), core::marker::PhantomData) }
impl<A: Elem> Iterator for SrcOf<A> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        burn();
        if self.0.left == 0 { return None }
        self.0.left -= 1;
        let v = self.0.next;
        self.0.next = v.wrapping_add(1);
        Some(A::mk(v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0.left, Some(self.0.left)) }
}
impl<A: Elem> ExactSizeIterator for SrcOf<A> {}
/// not exact sized: what it tells about its length is true, but may be as little as nothing
pub struct Blind<A>(SrcOf<A>, usize, Option<usize>);
#[inline(always)]
pub fn blind<A>(s: SrcOf<A>) -> Blind<A> {
    let (lo, more) = (upto(8), upto(8));
    let lo = if lo < s.0.left { lo } else { s.0.left };
    let hi = if any_bool() { Some(s.0.left + more) } else { None };
    Blind(s, lo, hi)
}
impl<A: Elem> Iterator for Blind<A> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        let v = self.0.next();
        if v.is_some() {
            self.1 = self.1.saturating_sub(1);
            if let Some(h) = &mut self.2 { *h -= 1 }
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) }
}
