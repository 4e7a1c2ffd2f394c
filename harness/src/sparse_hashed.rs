//! S05: equality of a sparse chunk with a hash map.
//!
//! Which keys the hash map has is spelled out case by case and its hasher has a fixed seed, so that where the
//! map puts an entry is known; the chunk's occupation and all values are any.
use crate::cmp::P;
use crate::spv::*;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use std::collections::{hash_map::RandomState, HashMap};
const FILE: u32 = 3200000;

fn map(seed: u64) -> HashMap<usize, P> {
    HashMap::with_hasher(unsafe { core::mem::transmute::<[u64; 2], RandomState>([seed, !seed]) })
}
/// the keys `0..N` that are bits of `y`, and the key `far` when bit `N` is set
fn cases<const N: usize>(far: usize) where BitsImpl<N>: Bits {
    let mut w = [0u8; N];
    for k in 0..N { w[k] = any_u8(); }
    let (a, x) = any::<N>();
    for y in 0..2usize << N {
        let mut m = map(y as u64 + 7);
        let mut same = true;
        for k in 0..N {
            let there = y >> k & 1 == 1;
            if there { m.insert(k, P(w[k])); }
            same &= x.p[k] == there;
            if there { same &= P(x.v[k]) == P(w[k]); }
        }
        if y >> N & 1 == 1 { m.insert(far, P(0)); same = false; }
        check!((a == m) == same);
        core::mem::forget(m);
    }
}
fn near<const N: usize>() where BitsImpl<N>: Bits { cases::<N>(N) }
fn far<const N: usize>() where BitsImpl<N>: Bits { cases::<N>(usize::MAX) }
/// the occupation spelled out as well: `K` positions spread over a chunk of `N`, every subset of them
fn spelled<const N: usize, const K: usize>() where BitsImpl<N>: Bits {
    let mut v = [0u8; K]; let mut w = [0u8; K];
    for k in 0..K { v[k] = any_u8(); w[k] = any_u8(); }
    for x in 0..1usize << K { row::<N, K>(x, &v, &w) }
}
#[inline(never)]
fn row<const N: usize, const K: usize>(x: usize, v: &[u8; K], w: &[u8; K]) where BitsImpl<N>: Bits { for y in 0..2usize << K { pair::<N, K>(x, y, v, w) } }
#[inline(never)]
fn pair<const N: usize, const K: usize>(x: usize, y: usize, v: &[u8; K], w: &[u8; K]) where BitsImpl<N>: Bits {
    let at = |k: usize| if K == 1 { N - 1 } else { k * (N - 1) / (K - 1) };
    let mut a: sized_chunks::SparseChunk<P, N> = Default::default();
    let mut m = map((x + y) as u64);
    let mut same = x == y;
    for k in 0..K {
        a.insert(at(k), P(v[k]));
        if x >> k & 1 == 0 { a.remove(at(k)); }
        if y >> k & 1 == 1 { m.insert(at(k), P(w[k])); }
        if x >> k & y >> k & 1 == 1 { same &= P(v[k]) == P(w[k]); }
    }
    if y >> K & 1 == 1 { m.insert(N + x, P(0)); }
    eqs!(a, m, same);
    core::mem::forget(m);
}
harness! {
    q_near1 = near::<1>;
    q_near2 = near::<2>;
    q_far2 = far::<2>;
    q_spelled1 = spelled::<1, 1>;
    q_spelled3 = spelled::<3, 3>;
    q_spelled64 = spelled::<64, 3>;
    q_spelled130 = spelled::<130, 3>;
    q_spelled5 = spelled::<5, 4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_near3 = near::<3>;
    t_spelled300 = spelled::<300, 5>;
} }
