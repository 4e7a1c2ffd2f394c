//! Comparing and hashing inline arrays.
use crate::cmp::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 2000000;
use core::borrow::Borrow;
type T3 = [u8; 11];
type T5 = [u8; 13];
type L4 = [u64; 2];

fn equal<T, const N: usize>() {
    let (a, x) = any_inline::<P, T, N>();
    let (b, y) = any_inline::<P, T, N>();
    eqs!(a, b, x.same(&y));
    // an array with an element that is not equal to itself is not, either
    let t = &a;
    eqs!(a, *t, x.same(&x));
    let t: &[P] = &a;
    eqs!(a, t, x.same(&x));
    check!(a.partial_cmp(&a) == x.order(&x));
    // a part of it
    let (l, h) = (upto(N), upto(N));
    assume(l <= h && h <= x.n);
    eqs!(a, &a[l..h], x.same(&x.cut(l, h)));
}
fn equal_slices<T, const N: usize>() {
    let (a, x) = any_inline::<P, T, N>();
    let (b, y) = any_array::<P, N>();
    let n = upto(N);
    let y = y.cut(0, n);
    let s = &b[..n];
    eqs!(a, s, x.same(&y));
    let (b, y) = any_array::<P, 2>();
    eqs!(a, b, x.same(&y));
    // another capacity, another host
    let (b, y) = any_inline::<P, [u64; 2], 8>();
    eqs!(a, b, x.same(&y));
}
fn order<T, const N: usize>() {
    let (a, x) = any_inline::<P, T, N>();
    let (b, y) = any_inline::<P, T, N>();
    ords!(a, b, x.order(&y));
}
fn total<T, const N: usize>() {
    let (a, x) = any_inline::<u8, T, N>();
    let (b, y) = any_inline::<u8, T, N>();
    for k in 0..N { assume(x.v[k] != 255 && y.v[k] != 255) }
    check!(Some(a.cmp(&b)) == x.order(&y));
}
fn hash<T, const N: usize>() {
    let (a, _) = any_inline::<u8, T, N>();
    let s: &[u8] = a.borrow();
    check!(same_hash(&hashed(&a), &hashed(s)));
    let (a, _) = any_inline::<P, T, N>();
    let s: &[P] = a.borrow();
    check!(same_hash(&hashed(&a), &hashed(s)));
}
harness! {
    q_pin_equal_wide40 = || build::pinned((0, 22), (0, 14), equal::<[u64; 6], 40>);
    q_pin_order_wide40 = || build::pinned((0, 22), (0, 14), order::<[u64; 6], 40>);
    q_pin_hash_wide40 = || build::pinned((0, 22), (0, 14), hash::<[u64; 6], 40>);
    q_equal3 = equal::<T3, 3>;
    q_equal5 = equal::<T5, 5>;
    q_equal_slices3 = equal_slices::<T3, 3>;
    q_order3 = order::<T3, 3>;
    q_order5 = order::<T5, 5>;
    q_total3 = total::<T3, 3>;
    q_hash3 = hash::<T3, 3>;
    q_hash5 = hash::<T5, 5>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_equal8 = equal::<L4, 8>;
    t_order8 = order::<L4, 8>;
    t_total8 = total::<L4, 8>;
    t_hash8 = hash::<L4, 8>;
} }
