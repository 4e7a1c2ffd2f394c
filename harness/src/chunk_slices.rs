//! A chunk seen as a slice: every way of borrowing it gives the same elements, aligned and in order,
//! and writing through any of them is writing to the chunk.
use crate::build::*;
use crate::sym::*;
use crate::slices::*;
use crate::*;
use core::borrow::{Borrow, BorrowMut};
use core::ops::Deref;
use sized_chunks::Chunk;
const FILE: u32 = 2300000;

#[inline(always)]
fn all<A: Elem>(x: &[A], s: &Seq, cap: usize) -> bool { same_slice(x, s.len, cap, |j| s.at(j)) & (x.as_ptr() as usize % core::mem::align_of::<A>() == 0) }
fn read<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    check!(all(c.as_slice(), &s, N));
    check!(all(c.deref(), &s, N));
    check!(all(Borrow::<[A]>::borrow(&c), &s, N));
    check!(all(AsRef::<[A]>::as_ref(&c), &s, N));
    check!(all(&c[..], &s, N));
    check!(all(c.as_mut_slice(), &s, N));
    check!(all(&mut *c, &s, N));
    check!(all(BorrowMut::<[A]>::borrow_mut(&mut c), &s, N));
    check!(all(AsMut::<[A]>::as_mut(&mut c), &s, N));
    check!(all(&mut c[..], &s, N));
    // one place for all of them
    let p = c.as_slice().as_ptr();
    check!(p == c.deref().as_ptr() && p == c.as_mut_slice().as_ptr() as *const A && p == AsRef::<[A]>::as_ref(&c).as_ptr());
    check!(c.len() == s.len);
}
/// any index and range over the full width: an element exactly when the slice has one, a refusal otherwise
fn index<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    let i = any_usize();
    let m = any_bool();
    let mut got = 255;
    let p = panics(|| got = if m { c[i].id() } else { let x: &mut A = &mut c[i]; x.id() });
    check!(p == (i >= s.len) && (p || got == s.at(i)));
    check!(match c.get(i) { Some(x) => i < s.len && x.id() == s.at(i), None => i >= s.len });
    check!(match c.get_mut(i) { Some(x) => i < s.len && x.id() == s.at(i), None => i >= s.len });
    check!(all(&c, &s, N));
}
#[inline(always)]
fn span<A: Elem, const N: usize>(c: &Chunk<A, N>, how: usize, x: usize, y: usize) -> &[A] {
    match how { 0 => &c[x..y], 1 => &c[x..], 2 => &c[..y], _ => &c[x..=y] }
}
#[inline(always)]
fn span_mut<A: Elem, const N: usize>(c: &mut Chunk<A, N>, how: usize, x: usize, y: usize) -> &mut [A] {
    match how { 0 => &mut c[x..y], 1 => &mut c[x..], 2 => &mut c[..y], _ => &mut c[x..=y] }
}
#[inline(always)]
fn wanted(how: usize, x: usize, y: usize, n: usize) -> Option<(usize, usize)> {
    let (l, h) = match how { 0 => (x, y), 1 => (x, n), 2 => (0, y), _ => { if y == usize::MAX { return None } (x, y + 1) } };
    if l <= h && h <= n { Some((l, h)) } else { None }
}
fn range<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    let (x, y, how, m) = (any_usize(), any_usize(), below(4), any_bool());
    let w = wanted(how, x, y, s.len);
    let mut good = true;
    let p = panics(|| {
        let g: &[A] = if m { span(&c, how, x, y) } else { span_mut(&mut c, how, x, y) };
        good = match w { Some((l, h)) => same_slice(g, h - l, N, |j| s.at(l + j)), None => false };
    });
    check!(p == w.is_none());
    check!(good);
    check!(all(&c, &s, N));
}
fn write<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    let i = upto(N);
    assume(i < s.len);
    let v = A::mk(200);
    match below(7) {
        0 => c.as_mut_slice()[i] = v,
        1 => (*c)[i] = v,
        2 => BorrowMut::<[A]>::borrow_mut(&mut c)[i] = v,
        3 => AsMut::<[A]>::as_mut(&mut c)[i] = v,
        4 => c[i] = v,
        5 => c[i..][0] = v,
        _ => c[..=i][i] = v,
    }
    check!(same_chunk(&c, s.len, |j| if j == i { 200 } else { s.at(j) }));
}
fn write_span<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    for (k, p) in c[x..y].iter_mut().enumerate() { *p = A::mk(200 + k as u8) }
    check!(same_chunk(&c, s.len, |j| if j >= x && j < y { 200 + (j - x) as u8 } else { s.at(j) }));
}
/// rearranging the slice in place rearranges the chunk
fn rearrange<A: Elem, const N: usize>() {
    let (mut c, s) = chunk::<A, N>();
    let how = below(3);
    let k = upto(N);
    assume(k <= s.len);
    match how { 0 => c.reverse(), 1 => c.rotate_left(k), _ => { assume(k < s.len); c.swap(0, k) } }
    check!(same_chunk(&c, s.len, |j| match how {
        0 => s.at(s.len - 1 - j),
        1 => s.at(if j + k < s.len { j + k } else { j + k - s.len }),
        _ => if j == 0 { s.at(k) } else if j == k { s.at(0) } else { s.at(j) },
    }));
}
fn ask<A: Elem + PartialEq, const N: usize>() { let (mut c, s) = chunk::<A, N>(); slice_ask!(c, s, A, N); check!(all(&c, &s, N)); }
fn tell<A: Elem + Copy, const N: usize>() { let (mut c, s) = chunk::<A, N>(); macro_rules! same { ($n:expr, $f:expr) => { same_chunk(&c, $n, $f) } } slice_tell!(c, s, A, N, same); }
harness! {
    q_pin_read_wide40 = || build::pinned((9, 22), (3, 14), read::<u8, 40>);
    q_pin_read_wide40b = || build::pinned((25, 15), (28, 12), read::<u8, 40>);
    q_pin_read_big_wide40 = || build::pinned((9, 22), (3, 14), read::<Big, 40>);
    q_pin_read_big_wide40b = || build::pinned((25, 15), (28, 12), read::<Big, 40>);
    q_pin_index_wide40 = || build::pinned((9, 22), (3, 14), index::<u8, 40>);
    q_pin_index_wide40b = || build::pinned((25, 15), (28, 12), index::<u8, 40>);
    q_pin_index_big_wide40 = || build::pinned((9, 22), (3, 14), index::<Big, 40>);
    q_pin_index_big_wide40b = || build::pinned((25, 15), (28, 12), index::<Big, 40>);
    q_pin_range_wide40 = || build::pinned((9, 22), (3, 14), range::<u8, 40>);
    q_pin_range_wide40b = || build::pinned((25, 15), (28, 12), range::<u8, 40>);
    q_pin_range_big_wide40 = || build::pinned((9, 22), (3, 14), range::<Big, 40>);
    q_pin_range_big_wide40b = || build::pinned((25, 15), (28, 12), range::<Big, 40>);
    q_pin_write_wide40 = || build::pinned((9, 22), (3, 14), write::<u8, 40>);
    q_pin_write_wide40b = || build::pinned((25, 15), (28, 12), write::<u8, 40>);
    q_pin_write_big_wide40 = || build::pinned((9, 22), (3, 14), write::<Big, 40>);
    q_pin_write_big_wide40b = || build::pinned((25, 15), (28, 12), write::<Big, 40>);
    q_pin_write_span_wide40 = || build::pinned((9, 22), (3, 14), write_span::<u8, 40>);
    q_pin_write_span_wide40b = || build::pinned((25, 15), (28, 12), write_span::<u8, 40>);
    q_pin_rearrange_wide40 = || build::pinned((9, 22), (3, 14), rearrange::<u8, 40>);
    q_pin_rearrange_wide40b = || build::pinned((25, 15), (28, 12), rearrange::<u8, 40>);
    q_pin_ask_wide40 = || build::pinned((9, 22), (3, 14), ask::<u8, 40>);
    q_pin_ask_wide40b = || build::pinned((25, 15), (28, 12), ask::<u8, 40>);
    q_pin_tell_wide40 = || build::pinned((9, 22), (3, 14), tell::<u8, 40>);
    q_pin_tell_wide40b = || build::pinned((25, 15), (28, 12), tell::<u8, 40>);
    q_read1 = read::<u8, 1>;
    q_read6 = read::<u8, 6>;
    q_read4_big = read::<Big, 4>;
    q_index1 = index::<u8, 1>;
    q_index6 = index::<u8, 6>;
    q_index4_big = index::<Big, 4>;
    q_range1 = range::<u8, 1>;
    q_range6 = range::<u8, 6>;
    q_range4_big = range::<Big, 4>;
    q_write6 = write::<u8, 6>;
    q_write4_big = write::<Big, 4>;
    q_write_span6 = write_span::<u8, 6>;
    q_rearrange4 = rearrange::<u8, 4>;
    q_ask4 = ask::<u8, 4>;
    q_tell4 = tell::<u8, 4>;
    q_tell3_big = tell::<Big, 3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_read64 = read::<u8, 64>;
    t_read16_big = read::<Big, 16>;
    t_index64 = index::<u8, 64>;
    t_range32 = range::<u8, 32>;
    t_range16_big = range::<Big, 16>;
    t_write32 = write::<u8, 32>;
    t_write_span16 = write_span::<u8, 16>;
    t_rearrange8 = rearrange::<u8, 8>;
    t_ask8 = ask::<u8, 8>;
    t_tell8 = tell::<u8, 8>;
} }
