//! Every iterator of a sparse chunk visits exactly the occupied positions (or
//! every position, for the optional ones), in ascending order.
use crate::build::*;
use crate::sp::*;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk as S;
const FILE: u32 = 1200000;

macro_rules! ascend { ($N:expr, $m:expr, $it:expr, $i:ident, $v:ident, $good:expr) => {
    for $i in 0..$N { if $m.has($i) { match $it.next() { Some($v) => check!($good), None => check!(false) } } }
    check!($it.next().is_none());
    check!($it.next().is_none());
} }
macro_rules! every { ($N:expr, $m:expr, $it:expr, $i:ident, $v:ident, $good:expr) => {
    for $i in 0..$N { match $it.next() { Some(Some($v)) => check!($m.has($i) && $good), Some(None) => check!(!$m.has($i)), None => check!(false) } }
    check!($it.next().is_none());
    check!($it.next().is_none());
} }
fn iter<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = c.iter();
    ascend!(N, m, it, i, v, v.id() == m.at(i));
}
fn indices<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = c.indices();
    ascend!(N, m, it, i, v, v == i);
}
fn entries<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = c.entries();
    ascend!(N, m, it, i, v, v.0 == i && v.1.id() == m.at(i));
}
fn iter_mut<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    {
        let mut it = c.iter_mut();
        ascend!(N, m, it, i, v, { let g = v.id() == m.at(i); *v = A::mk(100 + i as u8); g });
    }
    check!(exact(&c, m, |j| 100 + j as u8));
}
fn drain<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = if any_bool() { c.drain() } else { c.into_iter() };
    let mut left = m.count(N);
    check!(it.size_hint() == (left, Some(left)));
    ascend!(N, m, it, i, v, { left -= 1; v.id() == m.at(i) && it.size_hint() == (left, Some(left)) });
}
fn option_iter<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = c.option_iter();
    every!(N, m, it, i, v, v.id() == m.at(i));
}
fn option_iter_mut<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    {
        let mut it = c.option_iter_mut();
        every!(N, m, it, i, v, { let g = v.id() == m.at(i); *v = A::mk(100 + i as u8); g });
    }
    check!(exact(&c, m, |j| 100 + j as u8));
}
fn option_drain<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = stale::<A, N>(0);
    let mut it = c.option_drain();
    every!(N, m, it, i, v, v.id() == m.at(i));
}
#[inline(always)]
fn fits(h: (usize, Option<usize>), n: usize) -> bool { h.0 <= n && match h.1 { Some(u) => n <= u, None => true } }
/// the announced sizes hold at every point
fn hints<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let k = upto(N);
    macro_rules! go { ($it:expr, $n:expr) => { {
        let mut it = $it;
        for j in 0..N { if j < k { it.next(); } }
        let n = $n;
        check!(fits(it.size_hint(), n));
    } } }
    let occ = m.count(N);
    let rest = if k < occ { occ - k } else { 0 };
    match below(5) {
        0 => go!(c.iter(), rest),
        1 => go!(c.iter_mut(), rest),
        2 => go!(c.option_iter(), N - k),
        3 => go!(c.option_iter_mut(), N - k),
        _ => go!(c.option_drain(), N - k),
    }
}
/// skipping ahead, then the rest in one go
fn skips<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let n = any_usize();
    let rest = below(4);
    let occ = m.count(N);
    // position of the k-th element shown, None: there is none
    macro_rules! go { ($it:expr, $total:expr, $good:expr) => { {
        let mut it = $it;
        let total = $total;
        match it.nth(n) { Some(v) => { check!(n < total); check!($good(n, v)) } None => check!(n >= total) }
        let left = if n < total { total - n - 1 } else { 0 };
        check!(fits(it.size_hint(), left));
        match rest {
            0 => check!(it.count() == left),
            3 => { check!(it.nth(left).is_none()); check!(fits(it.size_hint(), 0)); check!(it.next().is_none()) }
            1 => match it.last() { Some(v) => { check!(left > 0); check!($good(total - 1, v)) } None => check!(left == 0) },
            _ => { let mut k = total - left; it.for_each(|v| { check!($good(k, v)); k += 1 }); check!(k == total) }
        }
    } } }
    let nth = |k: usize, id: u8| match m.nth(N, k) { Some(i) => id == m.at(i), None => false };
    let at = |k: usize, id: Option<u8>| match id { Some(id) => k < N && m.has(k) && id == m.at(k), None => k < N && !m.has(k) };
    match below(7) {
        0 => go!(c.iter(), occ, |k, v: &A| nth(k, v.id())),
        1 => go!(c.iter_mut(), occ, |k, v: &mut A| nth(k, v.id())),
        2 => go!(c.drain(), occ, |k, v: A| nth(k, v.id())),
        3 => go!(c.entries(), occ, |k, v: (usize, &A)| nth(k, v.1.id()) && v.0 as u8 == v.1.id()),
        4 => go!(c.option_iter(), N, |k, v: Option<&A>| at(k, v.map(|v| v.id()))),
        5 => go!(c.option_iter_mut(), N, |k, v: Option<&mut A>| at(k, v.map(|v| v.id()))),
        _ => go!(c.option_drain(), N, |k, v: Option<A>| at(k, v.map(|v| v.id()))),
    }
}
struct Opts { m: u128, i: usize, n: usize }
impl Iterator for Opts {
    type Item = Option<u8>;
    fn next(&mut self) -> Option<Option<u8>> { if self.i == self.n { return None } let i = self.i; self.i += 1; Some(if i < 128 && self.m >> i & 1 == 1 { Some(50 + i as u8) } else { None }) }
}
/// collecting optional values puts the i-th at position i
fn collect<const N: usize>() where BitsImpl<N>: Bits {
    let mut m = 0u128;
    for i in 0..N { if any_bool() { m |= 1 << i } }
    let n = upto(N + 1);
    let c: S<u8, N> = Opts { m, i: 0, n }.collect();
    for i in 0..N { if i >= n { m &= !(1 << i) } }
    check!(exact(&c, Map { base: 50, m }, |i| 50 + i as u8));
}
harness! {
    q_iter4 = iter::<u8, 4>;
    q_iter9 = iter::<u32, 9>;
    q_iter16 = iter::<u8, 16>;
    q_indices4 = indices::<u8, 4>;
    q_indices16 = indices::<u8, 16>;
    q_entries4 = entries::<u8, 4>;
    q_entries9 = entries::<u32, 9>;
    q_iter_mut4 = iter_mut::<u8, 4>;
    q_iter_mut9 = iter_mut::<u32, 9>;
    q_iter_mut16 = iter_mut::<u8, 16>;
    q_drain4 = drain::<u8, 4>;
    q_drain9 = drain::<u32, 9>;
    q_option_iter4 = option_iter::<u8, 4>;
    q_option_iter16 = option_iter::<u32, 16>;
    q_option_iter_mut4 = option_iter_mut::<u8, 4>;
    q_option_iter_mut16 = option_iter_mut::<u32, 16>;
    q_option_drain4 = option_drain::<u8, 4>;
    q_option_drain16 = option_drain::<u32, 16>;
    q_wide300 = wide::every::<300>;
    q_skips4 = skips::<u8, 4>;
    q_hints4 = hints::<u8, 4>;
    q_collect4 = collect::<4>;
    q_collect9 = collect::<9>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_iter33 = iter::<u8, 33>;
    t_indices33 = indices::<u8, 33>;
    t_iter_mut33 = iter_mut::<u8, 33>;
    t_drain16 = drain::<u8, 16>;
    t_option_iter64 = option_iter::<u8, 64>;
    t_option_iter_mut64 = option_iter_mut::<u8, 64>;
    t_option_drain64 = option_drain::<u8, 64>;
    t_iter64 = iter::<u8, 64>;
    t_iter_mut64 = iter_mut::<u8, 64>;
    t_skips8 = skips::<u8, 8>;
    t_hints8 = hints::<u8, 8>;
    t_collect16 = collect::<16>;
} }
