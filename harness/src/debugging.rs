//! D01: the Debug form of a container against that of the plain sequence (or map) with the same contents.
//!
//! What stands before the opening bracket is the container's own affair, as long as it is always the same.
use crate::build::*;
use crate::sp::{fresh, stale, Map};
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use core::fmt::{Debug, Error, Formatter, Result, Write};
use sized_chunks::{inline_array::InlineArray as I, ring_buffer::RingBuffer as R, sized_chunk::Chunk as C, SparseChunk as S};
const FILE: u32 = 3300000;

/// shows itself as one letter and the width it was asked for
pub struct D(u8);
impl Elem for D { fn mk(v: u8) -> D { D(v) } fn id(&self) -> u8 { self.0 } }
impl Debug for D {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        let w = match f.width() { Some(w) => w as u8, None => 0 };
        let b = [b'a' + (self.0 & 15), b'0' + w];
        f.write_str(unsafe { core::str::from_utf8_unchecked(&b) })
    }
}
/// takes so many bytes and then fails
struct Sink<const M: usize> { b: [u8; M], n: usize, room: usize }
impl<const M: usize> Write for Sink<M> {
    fn write_str(&mut self, s: &str) -> Result {
        for &c in s.as_bytes() {
            if self.n == self.room { return Err(Error) }
            if self.n < M { self.b[self.n] = c; }
            self.n += 1;
        }
        Ok(())
    }
}
fn sink<const M: usize>(room: usize) -> Sink<M> { Sink { b: [0; M], n: 0, room } }
fn same<const M: usize>(a: &Sink<M>, skip: usize, b: &Sink<M>) -> bool {
    let mut r = a.n == b.n + skip && a.n <= M;
    for k in 0..M { if k < b.n && k + skip < M { r &= a.b[k + skip] == b.b[k]; } }
    r
}
/// the contents as the standard builders show them
struct Plain { n: usize, base: u8 }
impl Debug for Plain {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        let mut l = f.debug_list();
        for k in 0..self.n { l.entry(&D(self.base + k as u8)); }
        l.finish()
    }
}
#[derive(Clone, Copy)]
enum How { Short, Wide, Long }
fn put<T: Debug, const M: usize>(s: &mut Sink<M>, how: How, t: &T) -> Result {
    match how {
        How::Short => write!(s, "{:?}", t),
        How::Wide => write!(s, "{:7?}", t),
        How::Long => write!(s, "{:#?}", t),
    }
}
/// c holds what p holds; e holds nothing
fn shows<T: Debug, const M: usize>(how: How, c: &T, e: &T, p: &impl Debug) {
    let mut x = sink::<M>(M);
    check!(put(&mut x, how, e).is_ok());
    let pre = x.n - 2;
    let mut a = sink::<M>(M); let mut b = sink::<M>(M);
    check!(put(&mut a, how, c).is_ok());
    let _ = put(&mut b, how, p);
    check!(same(&a, pre, &b));
    for k in 0..16 { if k < pre { check!(a.b[k] == x.b[k]); } }
}
/// the writer gives up at some point: so does the container, and nothing comes after
fn gives_up<T: Debug, const M: usize>(how: How, c: &T, e: &T, p: &impl Debug) {
    let mut x = sink::<M>(M);
    check!(put(&mut x, how, e).is_ok());
    let pre = x.n - 2;
    let room = below(M - pre);
    let mut a = sink::<M>(room + pre); let mut b = sink::<M>(room);
    let r = put(&mut a, how, c).is_ok();
    check!(r == put(&mut b, how, p).is_ok());
    cover!(!r);
    check!(same(&a, pre, &b));
}
/// and before the bracket
fn gives_up_early<T: Debug, const M: usize>(how: How, c: &T) {
    let room = below(5);
    let mut a = sink::<M>(room);
    check!(put(&mut a, how, c).is_err());
    check!(a.n == room);
}
struct PlainMap<const N: usize>(Map);
impl<const N: usize> Debug for PlainMap<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        let mut l = f.debug_map();
        for k in 0..N { if self.0.has(k) { l.entry(&k, &D(self.0.at(k))); } }
        l.finish()
    }
}
fn plain(s: &Seq) -> Plain { Plain { n: s.len, base: s.base } }
fn chunk_shows<const N: usize>(how: How) { let (c, s) = chunk_from::<D, N>(0); shows::<_, 48>(how, &c, &C::new(), &plain(&s)); }
fn ring_shows<const N: usize>(how: How) { let (c, s) = ring_from::<D, N>(0); shows::<_, 48>(how, &c, &R::new(), &plain(&s)); }
fn inline_shows<T>(how: How) { let (c, s) = inline::<D, T>(0); shows::<_, 48>(how, &c, &I::new(), &plain(&s)); }
fn sparse_shows<const N: usize>(how: How) where BitsImpl<N>: Bits {
    let (c, m): (S<D, N>, Map) = if any_bool() { fresh(0) } else { stale(100) };
    shows::<_, 64>(how, &c, &S::new(), &PlainMap::<N>(m));
}
fn slice_shows<const N: usize>(how: How) {
    let (c, s) = ring_from::<D, N>(0);
    let (l, h) = (upto(N), upto(N)); assume(l <= h && h <= s.len);
    shows::<_, 48>(how, &c.slice(l..h), &c.slice(0..0), &Plain { n: h - l, base: s.base + l as u8 });
}
fn slice_mut_shows<const N: usize>(how: How) {
    let (mut c, s) = ring_from::<D, N>(0);
    let mut e = R::<D, N>::new();
    let (l, h) = (upto(N), upto(N)); assume(l <= h && h <= s.len);
    shows::<_, 48>(how, &c.slice_mut(l..h), &e.slice_mut(..), &Plain { n: h - l, base: s.base + l as u8 });
}
/// a few positions anywhere in a large chunk
fn large_shows<const N: usize>() where BitsImpl<N>: Bits {
    let mut c: S<D, N> = S::new();
    let (i, j) = (below(N), below(N));
    assume(i < j);
    c.insert(j, D(2)); c.insert(i, D(1));
    struct Two(usize, usize);
    impl Debug for Two { fn fmt(&self, f: &mut Formatter<'_>) -> Result { f.debug_map().entry(&self.0, &D(1)).entry(&self.1, &D(2)).finish() } }
    shows::<_, 48>(How::Short, &c, &S::new(), &Two(i, j));
}
harness! {
    q_chunk3 = || chunk_shows::<3>(How::Short);
    q_chunk5 = || chunk_shows::<5>(How::Short);
    q_chunk_wide3 = || chunk_shows::<3>(How::Wide);
    q_chunk_long3 = || chunk_shows::<3>(How::Long);
    q_ring3 = || ring_shows::<3>(How::Short);
    q_ring5 = || ring_shows::<5>(How::Short);
    q_ring_wide3 = || ring_shows::<3>(How::Wide);
    q_ring_long3 = || ring_shows::<3>(How::Long);
    q_slice3 = || slice_shows::<3>(How::Short);
    q_slice4 = || slice_shows::<4>(How::Short);
    q_slice_wide3 = || slice_shows::<3>(How::Wide);
    q_slice_mut3 = || slice_mut_shows::<3>(How::Short);
    q_slice_mut4 = || slice_mut_shows::<4>(How::Short);
    q_slice_mut_wide3 = || slice_mut_shows::<3>(How::Wide);
    q_inline3 = || inline_shows::<[u8; 11]>(How::Short);
    q_inline5 = || inline_shows::<[u8; 13]>(How::Short);
    q_inline_wide3 = || inline_shows::<[u8; 11]>(How::Wide);
    q_inline_long3 = || inline_shows::<[u8; 11]>(How::Long);
    q_sparse3 = || sparse_shows::<3>(How::Short);
    q_sparse5 = || sparse_shows::<5>(How::Short);
    q_sparse_wide3 = || sparse_shows::<3>(How::Wide);
    q_sparse_long2 = || sparse_shows::<2>(How::Long);
    q_sparse_large64 = large_shows::<64>;
    q_gives_up_chunk3 = || { let (c, s) = chunk_from::<D, 3>(0); gives_up::<_, 24>(How::Short, &c, &C::new(), &plain(&s)) };
    q_gives_up_ring3 = || { let (c, s) = ring_from::<D, 3>(0); gives_up::<_, 24>(How::Short, &c, &R::new(), &plain(&s)) };
    q_gives_up_inline3 = || { let (c, s) = inline::<D, [u8; 11]>(0); gives_up::<_, 24>(How::Short, &c, &I::new(), &plain(&s)) };
    q_gives_up_sparse2 = || { let (c, m): (S<D, 2>, Map) = fresh(0); gives_up::<_, 32>(How::Short, &c, &S::new(), &PlainMap::<2>(m)) };
    q_early = || {
        match below(6) {
            0 => gives_up_early::<_, 8>(How::Short, &C::<D, 2>::new()),
            1 => gives_up_early::<_, 8>(How::Short, &R::<D, 2>::new()),
            2 => gives_up_early::<_, 8>(How::Short, &S::<D, 2>::new()),
            3 => gives_up_early::<_, 8>(How::Short, &I::<D, [u64; 2]>::new()),
            4 => gives_up_early::<_, 8>(How::Short, &R::<D, 2>::new().slice(..)),
            _ => gives_up_early::<_, 8>(How::Short, &R::<D, 2>::new().slice_mut(..)),
        }
    };
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_chunk8 = || chunk_shows::<8>(How::Short);
    t_ring8 = || ring_shows::<8>(How::Short);
    t_slice6 = || slice_shows::<6>(How::Short);
    t_inline7 = || inline_shows::<[u64; 3]>(How::Short);
    t_sparse6 = || sparse_shows::<6>(How::Short);
    t_sparse_long4 = || sparse_shows::<4>(How::Long);
    t_sparse_large130 = large_shows::<130>;
} }
