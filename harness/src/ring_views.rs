//! A view of part of a ring buffer is exactly that part, however it is asked for.
use crate::build::*;
use crate::sym::*;
use crate::*;
use array_ops::{Array, ArrayMut, HasLength};
use core::ops::Bound;
use sized_chunks::ring_buffer::{RingBuffer, Slice, SliceMut};
const FILE: u32 = 800000;

type R = (Bound<usize>, Bound<usize>);
/// every kind of range a caller can write (but an excluded start), with the positions it names in a sequence of length n; None: it names none
#[inline(always)]
fn ranges(n: usize, a: usize, b: usize) -> (R, Option<(usize, usize)>) {
    let lo = if any_bool() { Bound::Included(a) } else { Bound::Unbounded };
    let k = below(3);
    let hi = if k == 0 { Bound::Included(b) } else if k == 1 { Bound::Excluded(b) } else { Bound::Unbounded };
    let l = match lo { Bound::Included(a) => a, _ => 0 };
    let h = match hi { Bound::Included(b) => if b == usize::MAX { return ((lo, hi), None) } else { b + 1 }, Bound::Excluded(b) => b, _ => n };
    ((lo, hi), if l <= h && h <= n { Some((l, h)) } else { None })
}
pub trait View<A>: HasLength + Array + Sized + core::ops::Index<usize, Output = A> {
    type It<'b>: DoubleEndedIterator<Item = &'b A> + ExactSizeIterator where Self: 'b, A: 'b;
    type Own;
    fn it<'b>(&'b self) -> Self::It<'b> where A: 'b;
    fn sub(self, r: R) -> Self;
    fn cut(self, i: usize) -> (Self, Self);
    fn own(&self) -> Self::Own where A: Clone;
    unsafe fn raw(&self, i: usize) -> &A;
}
macro_rules! view { ($T:ident) => {
impl<'a, A: 'a, const N: usize> View<A> for $T<'a, A, N> {
    type It<'b> = ring_buffer::Iter<'b, A, N> where Self: 'b, A: 'b;
    type Own = RingBuffer<A, N>;
    #[inline(always)] fn it<'b>(&'b self) -> Self::It<'b> where A: 'b { self.iter() }
    #[inline(always)] fn sub(self, r: R) -> Self { self.slice(r) }
    #[inline(always)] fn cut(self, i: usize) -> (Self, Self) { self.split_at(i) }
    #[inline(always)] fn own(&self) -> RingBuffer<A, N> where A: Clone { self.to_owned() }
    #[inline(always)] unsafe fn raw(&self, i: usize) -> &A { self.get_unchecked(i) }
}
} }
view!(Slice);
view!(SliceMut);
use sized_chunks::ring_buffer;

/// v is base, base+1, ... (len of them), by every way of reading it
#[inline(always)]
fn reads<A: Elem, V: View<A>>(v: &V, s: Seq) -> bool {
    let j = any_usize();
    let mut r = (v.len() == s.len) & (v.is_empty() == (s.len == 0));
    r &= match v.get(j) { Some(x) => j < s.len && x.id() == s.at(j), None => j >= s.len };
    r &= match v.first() { Some(x) => s.len > 0 && x.id() == s.at(0), None => s.len == 0 };
    r &= match v.last() { Some(x) => s.len > 0 && x.id() == s.at(s.len - 1), None => s.len == 0 };
    if j < s.len { r &= v[j].id() == s.at(j) && unsafe { v.raw(j) }.id() == s.at(j) }
    r
}
#[inline(always)]
fn walks<A: Elem, V: View<A>>(v: &V, s: Seq, cap: usize) -> bool {
    let mut r = true;
    let mut it = v.it();
    let (mut f, mut b) = (0, 0);
    for _ in 0..cap + 1 {
        r &= it.len() == s.len - f - b;
        if any_bool() { match it.next() { Some(x) => { r &= f + b < s.len && x.id() == s.at(f); f += 1 } None => r &= f + b == s.len } }
        else { match it.next_back() { Some(x) => { r &= f + b < s.len && x.id() == s.at(s.len - 1 - b); b += 1 } None => r &= f + b == s.len } }
    }
    r
}
#[inline(always)] fn part(s: Seq, l: usize, h: usize) -> Seq { Seq { base: s.at(l), len: h - l } }

fn read<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (upto(N), upto(N));
    let (r, w) = ranges(s.len, a, b);
    assume(w.is_some());
    let (l, h) = w.unwrap();
    check!(reads(&q.slice(r), part(s, l, h)));
    check!(reads(&q.slice_mut(r), part(s, l, h)));
}
fn walk<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (upto(N), upto(N));
    let (r, w) = ranges(s.len, a, b);
    assume(w.is_some());
    let (l, h) = w.unwrap();
    if any_bool() { check!(walks(&q.slice(r), part(s, l, h), N)); } else { check!(walks(&q.slice_mut(r), part(s, l, h), N)); }
}
fn whole<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    check!(reads(&Slice::from(&q), s));
    check!(reads(&Slice::from(&q).clone(), s));
    check!(reads(&SliceMut::from(&mut q), s));
    check!(reads(&SliceMut::from(&mut q).unmut(), s));
    let t: Slice<'_, A, N> = SliceMut::from(&mut q).into();
    check!(reads(&t, s));
}
fn nested<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (upto(N), upto(N));
    assume(a <= b && b <= s.len);
    let (r, w) = ranges(b - a, upto(N), upto(N));
    assume(w.is_some());
    let (l, h) = w.unwrap();
    if any_bool() { check!(reads(&q.slice(a..b).slice(r), part(s, a + l, a + h))); } else { check!(reads(&q.slice_mut(a..b).slice(r), part(s, a + l, a + h))); }
}
fn split<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b, m) = (upto(N), upto(N), upto(N));
    assume(a <= b && b <= s.len && m <= b - a);
    if any_bool() {
        let (x, y) = q.slice(a..b).split_at(m);
        check!(reads(&x, part(s, a, a + m)));
        check!(reads(&y, part(s, a + m, b)));
    } else {
        let (x, y) = q.slice_mut(a..b).split_at(m);
        check!(reads(&x, part(s, a, a + m)));
        check!(reads(&y, part(s, a + m, b)));
    }
}
fn copy<A: Elem + Clone, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (upto(N), upto(N));
    assume(a <= b && b <= s.len);
    let c = if any_bool() { q.slice(a..b).to_owned() } else { q.slice_mut(a..b).to_owned() };
    check!(same_ring(&c, b - a, |j| s.at(a + j).wrapping_add(A::BIAS)));
    check!(same_ring(&q, s.len, |j| s.at(j)));
}
/// ranges that name no positions are refused
fn refuse<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (any_usize(), any_usize());
    let (r, w) = ranges(s.len, a, b);
    let m = any_bool();
    let p = panics(|| if m { let _ = q.slice(r); } else { let _ = q.slice_mut(r); });
    check!(p == w.is_none());
}
/// a range that leaves its first position out: the positions it names, or a refusal
fn after<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (a, b) = (any_usize(), any_usize());
    let (r, _) = ranges(s.len, 0, b);
    let r = (Bound::Excluded(a), r.1);
    let h = match r.1 { Bound::Included(b) => if b == usize::MAX { usize::MAX } else { b + 1 }, Bound::Excluded(b) => b, _ => s.len };
    let good = a < h && h <= s.len;
    let mut seen = true;
    let m = any_bool();
    let _ = panics(|| if m { let v = q.slice(r); seen = good && reads(&v, part(s, a + 1, h)); } else { let v = q.slice_mut(r); seen = good && reads(&v, part(s, a + 1, h)); });
    check!(seen);
    check!(same_ring(&q, s.len, |j| s.at(j)));
}
fn refuse_nested<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let (a, b) = (any_usize(), any_usize());
    let (r, w) = ranges(y - x, a, b);
    let m = any_bool();
    let p = panics(|| if m { let _ = q.slice(x..y).slice(r); } else { let _ = q.slice_mut(x..y).slice(r); });
    check!(p == w.is_none());
}
fn refuse_split<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let i = any_usize();
    let m = any_bool();
    let p = panics(|| if m { let _ = q.slice(x..y).split_at(i); } else { let _ = q.slice_mut(x..y).split_at(i); });
    check!(p == (i > y - x));
}
/// positions past the end of the view are refused, though the buffer may have them
fn refuse_index<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let i = any_usize();
    let m = below(3);
    let p = panics(|| match m {
        0 => { q.slice(x..y)[i].id(); }
        1 => { q.slice_mut(x..y)[i].id(); }
        _ => { q.slice_mut(x..y)[i] = A::mk(200); }
    });
    check!(p == (i >= y - x));
    if p || m < 2 { check!(same_ring(&q, s.len, |j| s.at(j))); }
}
harness! {
    q_pin_read_wide40 = || build::pinned((33, 22), (30, 14), read::<u8, 40>);
    q_pin_read_wide40b = || build::pinned((5, 30), (38, 10), read::<u8, 40>);
    q_pin_whole_wide40 = || build::pinned((33, 22), (30, 14), whole::<u32, 40>);
    q_pin_whole_wide40b = || build::pinned((5, 30), (38, 10), whole::<u32, 40>);
    q_pin_nested_wide40 = || build::pinned((33, 22), (30, 14), nested::<u8, 40>);
    q_pin_nested_wide40b = || build::pinned((5, 30), (38, 10), nested::<u8, 40>);
    q_pin_split_wide40 = || build::pinned((33, 22), (30, 14), split::<u8, 40>);
    q_pin_split_wide40b = || build::pinned((5, 30), (38, 10), split::<u8, 40>);
    q_pin_copy_wide40 = || build::pinned((33, 22), (30, 14), copy::<u32, 40>);
    q_pin_copy_wide40b = || build::pinned((5, 30), (38, 10), copy::<u32, 40>);
    q_pin_refuse_wide40 = || build::pinned((33, 22), (30, 14), refuse::<u8, 40>);
    q_pin_refuse_wide40b = || build::pinned((5, 30), (38, 10), refuse::<u8, 40>);
    q_pin_after_wide40 = || build::pinned((33, 22), (30, 14), after::<u8, 40>);
    q_pin_after_wide40b = || build::pinned((5, 30), (38, 10), after::<u8, 40>);
    q_pin_refuse_nested_wide40 = || build::pinned((33, 22), (30, 14), refuse_nested::<u8, 40>);
    q_pin_refuse_nested_wide40b = || build::pinned((5, 30), (38, 10), refuse_nested::<u8, 40>);
    q_pin_refuse_split_wide40 = || build::pinned((33, 22), (30, 14), refuse_split::<u8, 40>);
    q_pin_refuse_split_wide40b = || build::pinned((5, 30), (38, 10), refuse_split::<u8, 40>);
    q_pin_refuse_index_wide40 = || build::pinned((33, 22), (30, 14), refuse_index::<u8, 40>);
    q_pin_refuse_index_wide40b = || build::pinned((5, 30), (38, 10), refuse_index::<u8, 40>);
    q_wide_view0 = wide::r::view::<300, 250, 200, 0>;
    q_wide_view1 = wide::r::view::<300, 250, 200, 1>;
    q_wide_view4 = wide::r::view::<300, 250, 200, 4>;
    q_wide_view6 = wide::r::view::<300, 250, 200, 6>;
    q_read4 = read::<u8, 4>;
    q_read5 = read::<u32, 5>;
    q_read16 = read::<u8, 16>;
    q_walk3 = walk::<u8, 3>;
    q_walk5 = walk::<u32, 5>;
    q_whole4 = whole::<u32, 4>;
    q_whole16 = whole::<u8, 16>;
    q_nested4 = nested::<u8, 4>;
    q_nested7 = nested::<u32, 7>;
    q_split4 = split::<u8, 4>;
    q_split7 = split::<u32, 7>;
    q_copy4 = copy::<u32, 4>;
    q_copy5 = copy::<Cl, 5>;
    q_copy8 = copy::<u8, 8>;
    q_refuse4 = refuse::<u8, 4>;
    q_after4 = after::<u8, 4>;
    q_refuse_nested4 = refuse_nested::<u8, 4>;
    q_refuse_split4 = refuse_split::<u8, 4>;
    q_refuse_index3 = refuse_index::<u8, 3>;
    q_refuse_index5 = refuse_index::<u32, 5>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_read64 = read::<u8, 64>;
    t_walk8 = walk::<u8, 8>;
    t_nested16 = nested::<u8, 16>;
    t_split16 = split::<u8, 16>;
    t_copy16 = copy::<u8, 16>;
    t_refuse64 = refuse::<u8, 64>;
    t_refuse_nested16 = refuse_nested::<u8, 16>;
    t_refuse_index16 = refuse_index::<u8, 16>;
} }
