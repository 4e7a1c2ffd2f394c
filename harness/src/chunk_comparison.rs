//! Comparing and hashing chunks.
use crate::cmp::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 1900000;
use core::borrow::Borrow;

fn equal<const N: usize>() {
    let (a, x) = any_chunk::<P, N>();
    let (b, y) = any_chunk::<P, N>();
    eqs!(a, b, x.same(&y));
    // a container with an element that is not equal to itself is not, either
    let t = &a;
    eqs!(a, *t, x.same(&x));
    eqs!(a, a.as_slice(), x.same(&x));
    // a part of it
    let (l, h) = (upto(N), upto(N));
    assume(l <= h && h <= x.n);
    eqs!(a, &a[l..h], x.same(&x.cut(l, h)));
    check!(a.partial_cmp(t) == x.order(&x));
}
fn equal_slices<const N: usize>() {
    let (a, x) = any_chunk::<P, N>();
    let (b, y) = any_array::<P, N>();
    let n = upto(N);
    let y = y.cut(0, n);
    let s = &b[..n];
    eqs!(a, s, x.same(&y));
    let (b, y) = any_array::<P, 2>();
    eqs!(a, b, x.same(&y));
    let (b, y) = any_inline::<P, [u8; 11], 3>();
    eqs!(a, b, x.same(&y));
    eqs!(b, a, y.same(&x));
    let (b, y) = any_chunk::<P, 2>();
    eqs!(a, b, x.same(&y));
}
fn order<const N: usize>() {
    let (a, x) = any_chunk::<P, N>();
    let (b, y) = any_chunk::<P, N>();
    ords!(a, b, x.order(&y));
}
fn total<const N: usize>() {
    let (a, x) = any_chunk::<u8, N>();
    let (b, y) = any_chunk::<u8, N>();
    for k in 0..N { assume(x.v[k] != 255 && y.v[k] != 255) }
    check!(Some(a.cmp(&b)) == x.order(&y));
}
/// equal contents hash alike wherever they sit, and as the slice they can be borrowed as
fn hash<const N: usize>() {
    let (a, _) = any_chunk::<u8, N>();
    let s: &[u8] = a.borrow();
    check!(same_hash(&hashed(&a), &hashed(s)));
    let (a, _) = any_chunk::<P, N>();
    let s: &[P] = a.borrow();
    check!(same_hash(&hashed(&a), &hashed(s)));
}
fn hash_alike<const N: usize>() {
    let (a, x) = any_chunk::<u8, N>();
    let (mut b, s) = build::chunk::<u8, N>();
    assume(s.len == x.n);
    for k in 0..N { if k < x.n { b[k] = x.v[k] } }
    check!(same_hash(&hashed(&a), &hashed(&b)));
}
harness! {
    q_pin_equal_wide40 = || build::pinned((9, 22), (3, 14), equal::<40>);
    q_pin_equal_wide40b = || build::pinned((25, 15), (28, 12), equal::<40>);
    q_pin_order_wide40 = || build::pinned((9, 22), (3, 14), order::<40>);
    q_pin_order_wide40b = || build::pinned((25, 15), (28, 12), order::<40>);
    q_pin_total_wide40 = || build::pinned((9, 22), (3, 14), total::<40>);
    q_pin_total_wide40b = || build::pinned((25, 15), (28, 12), total::<40>);
    q_pin_hash_wide40 = || build::pinned((9, 22), (3, 14), hash::<40>);
    q_pin_hash_wide40b = || build::pinned((25, 15), (28, 12), hash::<40>);
    q_wide_cmp300 = wide::c::compared::<300, 40, 20, 200>;
    q_equal3 = equal::<3>;
    q_equal6 = equal::<6>;
    q_equal_slices3 = equal_slices::<3>;
    q_equal_slices5 = equal_slices::<5>;
    q_order3 = order::<3>;
    q_order5 = order::<5>;
    q_total4 = total::<4>;
    q_hash4 = hash::<4>;
    q_hash_alike4 = hash_alike::<4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_equal16 = equal::<16>;
    t_order8 = order::<8>;
    t_total8 = total::<8>;
    t_hash8 = hash::<8>;
    t_hash_alike8 = hash_alike::<8>;
} }
