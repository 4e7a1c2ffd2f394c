//! Writing through a mutable view changes exactly the named position of the buffer.
use crate::build::*;
use crate::sym::*;
use crate::*;
use array_ops::{Array, ArrayMut, HasLength};
const FILE: u32 = 900000;

#[inline(always)]
fn pick<const N: usize>(s: Seq) -> (usize, usize, usize) {
    let (x, y, i) = (upto(N), upto(N), upto(N));
    assume(x <= y && y <= s.len && i < y - x);
    (x, y, i)
}
fn write<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y, i) = pick::<N>(s);
    {
        let mut v = q.slice_mut(x..y);
        match below(6) {
            0 => v[i] = A::mk(200),
            5 => *unsafe { v.get_unchecked_mut(i) } = A::mk(200),
            1 => match v.get_mut(i) { Some(p) => *p = A::mk(200), None => check!(false) },
            2 => { assume(i == 0); match v.first_mut() { Some(p) => *p = A::mk(200), None => check!(false) } }
            3 => { assume(i == y - x - 1); match v.last_mut() { Some(p) => *p = A::mk(200), None => check!(false) } }
            _ => match v.set(i, A::mk(200)) { Some(o) => check!(o.id() == s.at(x + i)), None => check!(false) },
        }
        check!(v[i].id() == 200 && v.len() == y - x);
    }
    check!(same_ring(&q, s.len, |j| if j == x + i { 200 } else { s.at(j) }));
}
fn swap<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y, i) = pick::<N>(s);
    let k = upto(N);
    assume(k < y - x);
    if any_bool() { q.slice_mut(x..y).swap(i, k) } else { assume(i != k); q.slice_mut(x..y).map_pair(i, k, |a, b| core::mem::swap(a, b)) }
    check!(same_ring(&q, s.len, |j| if j == x + i { s.at(x + k) } else if j == x + k { s.at(x + i) } else { s.at(j) }));
}
/// two writers on two halves
fn halves<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y, m) = pick::<N>(s);
    let (i, k) = (upto(N), upto(N));
    assume(i < m && k < y - x - m);
    {
        let (mut a, mut b) = q.slice_mut(x..y).split_at(m);
        if any_bool() { a[i] = A::mk(200); b[k] = A::mk(201); } else { b[k] = A::mk(201); a[i] = A::mk(200); }
        check!(a[i].id() == 200 && b[k].id() == 201);
    }
    check!(same_ring(&q, s.len, |j| if j == x + i { 200 } else if j == x + m + k { 201 } else { s.at(j) }));
}
/// mutable iteration over a view: from both ends, each position once, writes land where they should
fn iterate<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let n = y - x;
    let (mut f, mut b) = (0, 0);
    {
        let mut v = q.slice_mut(x..y);
        let mut it = v.iter_mut();
        for _ in 0..N + 1 {
            check!(it.len() == n - f - b);
            if any_bool() { match it.next() { Some(p) => { check!(p.id() == s.at(x + f)); *p = A::mk(s.at(x + f) + 100); f += 1 } None => check!(f + b == n) } }
            else { match it.next_back() { Some(p) => { check!(p.id() == s.at(x + n - 1 - b)); *p = A::mk(s.at(x + n - 1 - b) + 100); b += 1 } None => check!(f + b == n) } }
        }
    }
    check!(f + b == n);
    check!(same_ring(&q, s.len, |j| if j >= x && j < y { s.at(j) + 100 } else { s.at(j) }));
}
/// writes through a view of a view
fn nested<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y, i) = pick::<N>(s);
    let k = upto(N);
    assume(k < y - x - i);
    q.slice_mut(x..y).slice(i..)[k] = A::mk(200);
    check!(same_ring(&q, s.len, |j| if j == x + i + k { 200 } else { s.at(j) }));
}
/// whatever is asked of a view, it gives no way to change an element outside of it
fn keeps_out<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let m = upto(N);
    assume(m <= y - x);
    let (i, k, l) = (any_usize(), any_usize(), any_usize());
    let second = any_bool();
    let (from, to) = if second { (x + m, y) } else { (x, x + m) };
    let how = below(7);
    panics(|| {
        let (a, b) = q.slice_mut(x..y).split_at(m);
        let mut v = if second { b } else { a };
        match how {
            0 => v[i] = A::mk(200),
            1 => { if let Some(p) = v.get_mut(i) { *p = A::mk(200) } }
            2 => { v.set(i, A::mk(200)); }
            3 => v.slice(k..l)[i] = A::mk(200),
            4 => v.slice(k..=l)[i] = A::mk(200),
            5 => { let mut w = v.slice(..l); for p in w.iter_mut() { *p = A::mk(200) } }
            _ => { let (mut c, mut d) = v.split_at(k); if let Some(p) = c.get_mut(i) { *p = A::mk(200) } else if let Some(p) = d.get_mut(l) { *p = A::mk(200) } }
        }
    });
    let j = below(N);
    if j < s.len { let e = q[j].id(); check!(e == s.at(j) || j >= from && j < to && e == 200); }
    check!(q.len() == s.len);
}
harness! {
    q_pin_keeps_out_wide40 = || build::pinned((33, 22), (30, 14), keeps_out::<u8, 40>);
    q_pin_keeps_out_wide40b = || build::pinned((5, 30), (38, 10), keeps_out::<u8, 40>);
    q_pin_write_wide40 = || build::pinned((33, 22), (30, 14), write::<u32, 40>);
    q_pin_write_wide40b = || build::pinned((5, 30), (38, 10), write::<u32, 40>);
    q_pin_swap_wide40 = || build::pinned((33, 22), (30, 14), swap::<u32, 40>);
    q_pin_swap_wide40b = || build::pinned((5, 30), (38, 10), swap::<u32, 40>);
    q_pin_halves_wide40 = || build::pinned((33, 22), (30, 14), halves::<u32, 40>);
    q_pin_halves_wide40b = || build::pinned((5, 30), (38, 10), halves::<u32, 40>);
    q_pin_nested_wide40 = || build::pinned((33, 22), (30, 14), nested::<u8, 40>);
    q_pin_nested_wide40b = || build::pinned((5, 30), (38, 10), nested::<u8, 40>);
    q_wide_view2 = wide::r::view::<300, 250, 200, 2>;
    q_wide_view3 = wide::r::view::<300, 250, 200, 3>;
    q_wide_view5 = wide::r::view::<70, 60, 50, 5>;
    q_keeps_out3 = keeps_out::<u8, 3>;
    q_keeps_out5 = keeps_out::<u8, 5>;
    q_write4 = write::<u32, 4>;
    q_write8 = write::<u8, 8>;
    q_swap4 = swap::<u32, 4>;
    q_swap8 = swap::<u8, 8>;
    q_halves4 = halves::<u32, 4>;
    q_halves8 = halves::<u8, 8>;
    q_iterate3 = iterate::<u32, 3>;
    q_iterate5 = iterate::<u8, 5>;
    q_nested4 = nested::<u8, 4>;
    q_nested7 = nested::<u32, 7>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_keeps_out8 = keeps_out::<u32, 8>;
    t_write16 = write::<u8, 16>;
    t_swap16 = swap::<u8, 16>;
    t_halves16 = halves::<u8, 16>;
    t_iterate8 = iterate::<u8, 8>;
    t_nested16 = nested::<u8, 16>;
} }
