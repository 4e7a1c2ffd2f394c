//! Comparing and hashing ring buffers and parts of them.
use crate::cmp::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 2100000;

#[inline(always)]
fn range<const N: usize>(n: usize) -> (usize, usize) { let (x, y) = (upto(N), upto(N)); assume(x <= y && y <= n); (x, y) }
fn equal<const N: usize>() {
    let (a, x) = any_ring::<P, N>();
    let (b, y) = any_ring::<P, N>();
    eqs!(a, b, x.same(&y));
    // a buffer with an element that is not equal to itself is not, either
    let t = &a;
    eqs!(a, *t, x.same(&x));
    eqs!(a, a.slice(..), x.same(&x));
    eqs!(a.slice(..), a, x.same(&x));
    eqs!(a.slice(..), a.slice(..), x.same(&x));
    check!(a.partial_cmp(t) == x.order(&x) && a.slice(..).partial_cmp(&a.slice(..)) == x.order(&x));
}
fn equal_slices<const N: usize>() {
    let (a, x) = any_ring::<P, N>();
    let (b, y) = any_array::<P, N>();
    let n = upto(N);
    let y = y.cut(0, n);
    let s = &b[..n];
    eqs!(a, s, x.same(&y));
    let (b, y) = any_array::<P, 2>();
    eqs!(a, b, x.same(&y));
    let (b, y) = any_chunk::<P, 2>();
    eqs!(a, b, x.same(&y));
}
/// buffers and views of either kind against each other
fn equal_views<const N: usize>() {
    let (mut a, x) = any_ring::<P, N>();
    let (mut b, y) = any_ring::<P, N>();
    let (l, h) = range::<N>(x.n);
    let (m, k) = range::<N>(y.n);
    let (p, q) = (x.cut(l, h), y.cut(m, k));
    match below(8) {
        0 => eqs!(a, b.slice(m..k), x.same(&q)),
        1 => eqs!(a, b.slice_mut(m..k), x.same(&q)),
        2 => eqs!(a.slice(l..h), b, p.same(&y)),
        3 => eqs!(a.slice_mut(l..h), b, p.same(&y)),
        4 => eqs!(a.slice(l..h), b.slice(m..k), p.same(&q)),
        5 => eqs!(a.slice(l..h), b.slice_mut(m..k), p.same(&q)),
        6 => eqs!(a.slice_mut(l..h), b.slice(m..k), p.same(&q)),
        _ => eqs!(a.slice_mut(l..h), b.slice_mut(m..k), p.same(&q)),
    }
}
/// parts of one and the same buffer
fn equal_within<const N: usize>() {
    let (mut a, x) = any_ring::<P, N>();
    let (l, h) = range::<N>(x.n);
    let (m, k) = range::<N>(x.n);
    let (p, q) = (x.cut(l, h), x.cut(m, k));
    match below(6) {
        0 => { eqs!(a.slice(l..h), a.slice(m..k), p.same(&q)); ords!(a.slice(l..h), a.slice(m..k), p.order(&q)); }
        1 => eqs!(a, a.slice(l..h), x.same(&p)),
        2 => eqs!(a.slice(l..h), a, p.same(&x)),
        3 => { let s = a.slice(l..h); eqs!(s, s.clone(), p.same(&p)); ords!(s, s, p.order(&p)); }
        4 => { let s = a.slice_mut(l..h); eqs!(s, s, p.same(&p)); ords!(s, s, p.order(&p)); }
        _ => {
            assume(m <= h - l);
            let (s, t) = a.slice_mut(l..h).split_at(m);
            let (p, q) = (x.cut(l, l + m), x.cut(l + m, h));
            eqs!(s, t, p.same(&q));
            ords!(s, t, p.order(&q));
        }
    }
}
fn view_to_slice<const N: usize>() {
    let (mut a, x) = any_ring::<P, N>();
    let (l, h) = range::<N>(x.n);
    let p = x.cut(l, h);
    let (b, y) = any_array::<P, N>();
    let n = upto(N);
    let y = y.cut(0, n);
    let s = &b[..n];
    if any_bool() { eqs!(a.slice(l..h), s, p.same(&y)) } else { eqs!(a.slice_mut(l..h), s, p.same(&y)) }
}
fn order<const N: usize>() {
    let (a, x) = any_ring::<P, N>();
    let (b, y) = any_ring::<P, N>();
    ords!(a, b, x.order(&y));
}
fn order_views<const N: usize>() {
    let (mut a, x) = any_ring::<P, N>();
    let (mut b, y) = any_ring::<P, N>();
    let (l, h) = range::<N>(x.n);
    let (m, k) = range::<N>(y.n);
    let w = x.cut(l, h).order(&y.cut(m, k));
    if any_bool() { ords!(a.slice(l..h), b.slice(m..k), w) } else { ords!(a.slice_mut(l..h), b.slice_mut(m..k), w) }
}
fn total<const N: usize>() {
    let (mut a, x) = any_ring::<u8, N>();
    let (mut b, y) = any_ring::<u8, N>();
    for k in 0..N { assume(x.v[k] != 255 && y.v[k] != 255) }
    let (l, h) = range::<N>(x.n);
    let (m, k) = range::<N>(y.n);
    let w = x.cut(l, h).order(&y.cut(m, k));
    match below(3) {
        0 => check!(Some(a.cmp(&b)) == x.order(&y)),
        1 => check!(Some(a.slice(l..h).cmp(&b.slice(m..k))) == w),
        _ => check!(Some(a.slice_mut(l..h).cmp(&b.slice_mut(m..k))) == w),
    }
}
/// equal contents hash alike, wherever they sit
fn hash<const N: usize>() {
    let (mut a, x) = any_ring::<u8, N>();
    let (mut b, s) = build::ring::<u8, N>();
    assume(s.len == x.n);
    for k in 0..N { if k < x.n { b[k] = x.v[k] } }
    match below(3) {
        0 => check!(same_hash(&hashed(&a), &hashed(&b))),
        k => {
            let (l, h) = range::<N>(x.n);
            if k == 1 { check!(same_hash(&hashed(&a.slice(l..h)), &hashed(&b.slice(l..h)))) } else { check!(same_hash(&hashed(&a.slice_mut(l..h)), &hashed(&b.slice_mut(l..h)))) }
        }
    }
}
/// unequal contents of equal length feed the hasher differently (nothing is left out)
fn hash_all<const N: usize>() {
    let (a, x) = any_ring::<u8, N>();
    let (b, y) = any_ring::<u8, N>();
    assume(x.n == y.n);
    let mut same = true;
    for k in 0..N { if k < x.n { same &= x.v[k] == y.v[k] } }
    check!(same_hash(&hashed(&a), &hashed(&b)) == same);
}
harness! {
    q_pin_equal_wide40 = || build::pinned((33, 22), (30, 14), equal::<40>);
    q_pin_equal_wide40b = || build::pinned((5, 30), (38, 10), equal::<40>);
    q_pin_order_wide40 = || build::pinned((33, 22), (30, 14), order::<40>);
    q_wide_cmp300 = wide::r::compared::<300, 250, 50, 200>;
    q_equal3 = equal::<3>;
    q_equal5 = equal::<5>;
    q_equal_slices3 = equal_slices::<3>;
    q_equal_slices5 = equal_slices::<5>;
    q_equal_views3 = equal_views::<3>;
    q_equal_within4 = equal_within::<4>;
    q_view_to_slice4 = view_to_slice::<4>;
    q_order4 = order::<4>;
    q_order_views3 = order_views::<3>;
    q_total3 = total::<3>;
    q_hash4 = hash::<4>;
    q_hash_all4 = hash_all::<4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_equal8 = equal::<8>;
    t_equal_views5 = equal_views::<5>;
    t_equal_within6 = equal_within::<6>;
    t_view_to_slice6 = view_to_slice::<6>;
    t_order8 = order::<8>;
    t_order_views5 = order_views::<5>;
    t_total5 = total::<5>;
    t_hash8 = hash::<8>;
    t_hash_all8 = hash_all::<8>;
} }
