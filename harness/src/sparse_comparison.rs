//! Comparing sparse chunks.
use crate::cmp::*;
use crate::spv::*;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk as S;
use std::collections::BTreeMap;
const FILE: u32 = 2200000;

fn equal<const N: usize>() where BitsImpl<N>: Bits {
    let (a, x) = any::<N>();
    let (b, y) = any::<N>();
    eqs!(a, b, x.same(&y));
}
fn itself<const N: usize>() where BitsImpl<N>: Bits {
    let (a, x) = any::<N>();
    let t = &a;
    eqs!(a, *t, x.same(&x));
    let b = a.clone();
    eqs!(a, b, x.same(&x));
    eqs!(b, a, x.same(&x));
}
/// few values anywhere in a large one
fn large<const N: usize>() where BitsImpl<N>: Bits {
    let (mut a, mut b): (S<P, N>, S<P, N>) = (S::new(), S::new());
    let (i, j, k, v, w) = (below(N), below(N), below(N), any_u8(), any_u8());
    assume(i != j);
    a.insert(i, P(v));
    b.insert(j, P(1));
    b.insert(k, P(w));
    if any_bool() { b.remove(j); eqs!(a, b, j != k && i == k && P(v) == P(w)); } else { eqs!(a, b, false); }
}
/// against an ordered map; the keys of the map may lie anywhere
fn tree<const N: usize>() where BitsImpl<N>: Bits {
    let (a, x) = any::<N>();
    let mut m = BTreeMap::new();
    let mut y = V { p: [false; N], v: [0; N] };
    let k = any_usize();
    let v = any_u8();
    let l = upto(N);
    m.insert(k, P(v));
    let mut n = 1;
    if k < N { y.p[k] = true; y.v[k] = v }
    if l < N { let w = any_u8(); if m.insert(l, P(w)).is_none() { n += 1 } y.p[l] = true; y.v[l] = w; }
    let mut inside = 0;
    for i in 0..N { inside += y.p[i] as usize }
    check!((if any_bool() { a == m } else { !(a != m) }) == (inside == n && x.same(&y)));
    core::mem::forget(m);
}
fn tree_empty<const N: usize>() where BitsImpl<N>: Bits {
    let (a, x) = any::<N>();
    let m: BTreeMap<usize, P> = BTreeMap::new();
    let mut none = true;
    for i in 0..N { none &= !x.p[i] }
    check!((if any_bool() { a == m } else { !(a != m) }) == none);
}
harness! {
    q_equal4 = equal::<4>;
    q_equal6 = equal::<6>;
    q_itself5 = itself::<5>;
    q_large64 = large::<64>;
    q_large130 = large::<130>;
    q_tree3 = tree::<3>;
    q_tree_empty4 = tree_empty::<4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_equal9 = equal::<9>;
    t_itself8 = itself::<8>;
    t_large300 = large::<300>;
    t_tree5 = tree::<5>;
} }
