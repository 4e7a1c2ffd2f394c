//! Sparse chunks: builder and the operations against the plain mapping.
use crate::build::*;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk as S;
const FILE: u32 = 1100000;

/// which positions are occupied; position i holds base+i
#[derive(Clone, Copy)]
pub struct Map { pub base: u8, pub m: u128 }
impl Map {
    #[inline(always)] pub fn has(&self, i: usize) -> bool { i < 128 && self.m >> (i & 127) & 1 == 1 }
    #[inline(always)] pub fn at(&self, i: usize) -> u8 { self.base + i as u8 }
    #[inline(always)] pub fn count(&self, n: usize) -> usize { let mut c = 0; for i in 0..n { c += self.has(i) as usize } c }
    /// the j-th occupied position
    #[inline(always)] pub fn nth(&self, n: usize, j: usize) -> Option<usize> { let mut c = 0; let mut r = None; for i in 0..n { if self.has(i) { if c == j { r = Some(i) } c += 1 } } r }
    #[inline(always)] pub fn with(mut self, i: usize) -> Self { self.m |= 1 << i; self }
    #[inline(always)] pub fn without(mut self, i: usize) -> Self { self.m &= !(1 << i); self }
    #[inline(always)] pub fn holds(&self, w: u8) -> u8 { (w >= self.base && self.has((w - self.base) as usize)) as u8 }
}
/// any occupation; what is vacant was never written
#[inline(always)]
pub fn fresh<A: Elem, const N: usize>(base: u8) -> (S<A, N>, Map) where BitsImpl<N>: Bits {
    let mut c = S::new();
    let mut m = 0u128;
    for i in 0..N { if any_bool() { c.insert(i, A::mk(base + i as u8)); m |= 1 << i; } }
    (c, Map { base, m })
}
/// any occupation; what is vacant once held something
#[inline(always)]
pub fn stale<A: Elem, const N: usize>(base: u8) -> (S<A, N>, Map) where BitsImpl<N>: Bits {
    let mut c = S::new();
    for i in 0..N { c.insert(i, A::mk(base + i as u8)); }
    let mut m = 0u128;
    for i in 0..N { m |= 1 << i; }
    for i in 0..N { if any_bool() { drop(c.remove(i)); m &= !(1 << i); } }
    (c, Map { base, m })
}
#[inline(always)]
pub fn same<A: Elem, const N: usize>(c: &S<A, N>, has: impl Fn(usize) -> bool, f: impl Fn(usize) -> u8) -> bool where BitsImpl<N>: Bits {
    let i = below(N);
    match c.get(i) { Some(v) => has(i) && v.id() == f(i), None => !has(i) }
}
/// the totals, too
#[inline(always)]
pub fn exact<A: Elem, const N: usize>(c: &S<A, N>, m: Map, f: impl Fn(usize) -> u8) -> bool where BitsImpl<N>: Bits {
    let n = m.count(N);
    same(c, |i| m.has(i), f) & (c.len() == n) & (c.is_empty() == (n == 0)) & (c.is_full() == (n == N)) & (c.first_index() == m.nth(N, 0))
}
pub fn make<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (i, k) = (below(N), below(N));
    let none = Map { base: 0, m: 0 };
    check!(exact(&S::<A, N>::new(), none, |_| 0));
    check!(exact(&S::<A, N>::default(), none, |_| 0));
    check!(exact(&S::<A, N>::unit(i, A::mk(7)), none.with(i), |_| 7));
    check!(exact(&S::<A, N>::pair(i, A::mk(7), k, A::mk(9)), none.with(i).with(k), |j| if j == k { 9 } else { 7 }));
}
pub fn look<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let i = any_usize();
    check!(match c.get(i) { Some(v) => i < N && m.has(i) && v.id() == m.at(i), None => i >= N || !m.has(i) });
    check!(match c.get_mut(i) { Some(v) => i < N && m.has(i) && v.id() == m.at(i), None => i >= N || !m.has(i) });
    if i < N && m.has(i) { check!(c[i].id() == m.at(i)); check!(unsafe { c.get_unchecked(i) }.id() == m.at(i)) }
    check!(exact(&c, m, |j| m.at(j)));
}
pub fn insert<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = if N % 2 == 0 { stale::<A, N>(0) } else { fresh::<A, N>(0) };
    let i = below(N);
    check!(match c.insert(i, A::mk(200)) { Some(v) => m.has(i) && v.id() == m.at(i), None => !m.has(i) });
    check!(exact(&c, m.with(i), |j| if j == i { 200 } else { m.at(j) }));
}
pub fn remove<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = if N % 2 == 0 { stale::<A, N>(0) } else { fresh::<A, N>(0) };
    let i = below(N);
    check!(match c.remove(i) { Some(v) => m.has(i) && v.id() == m.at(i), None => !m.has(i) });
    check!(exact(&c, m.without(i), |j| m.at(j)));
}
pub fn pop<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = fresh::<A, N>(0);
    let f = m.nth(N, 0);
    match (c.pop(), f) {
        (Some(v), Some(i)) => { check!(v.id() == m.at(i)); check!(exact(&c, m.without(i), |j| m.at(j))); }
        (None, None) => check!(exact(&c, m, |_| 0)),
        _ => check!(false),
    }
}
pub fn write<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let i = below(N);
    if any_bool() { match c.get_mut(i) { Some(p) => *p = A::mk(200), None => { check!(!m.has(i)); return } } } else { assume(m.has(i)); if any_bool() { c[i] = A::mk(200) } else { *unsafe { c.get_unchecked_mut(i) } = A::mk(200) } }
    check!(exact(&c, m, |j| if j == i { 200 } else { m.at(j) }));
}
/// a copy, made afresh or over another, is made of copies; the two are independent
pub fn copy<A: Elem + Clone, const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let mut d = if any_bool() { c.clone() } else { let mut d = fresh::<A, N>(100).0; d.clone_from(&c); d };
    let f = |j| m.at(j).wrapping_add(A::BIAS);
    check!(exact(&d, m, f));
    check!(exact(&c, m, |j| m.at(j)));
    let i = below(N);
    if any_bool() { d.insert(i, A::mk(200)); check!(exact(&c, m, |j| m.at(j))); check!(exact(&d, m.with(i), |j| if j == i { 200 } else { f(j) })); }
    else { c.remove(i); check!(exact(&d, m, f)); check!(exact(&c, m.without(i), |j| m.at(j))); }
}
/// a handful of steps at any positions of a large map
pub fn large<A: Elem, const N: usize, const K: usize>() where BitsImpl<N>: Bits {
    let mut c: S<A, N> = S::new();
    let mut at = [usize::MAX; K];
    for k in 0..K {
        let i = below(N);
        if any_bool() {
            let mut old = None;
            for j in 0..k { if at[j] == i { old = Some(100 + j as u8); at[j] = usize::MAX } }
            check!(match (c.insert(i, A::mk(100 + k as u8)), old) { (Some(v), Some(w)) => v.id() == w, (None, None) => true, _ => false });
            at[k] = i;
        } else {
            let mut old = None;
            for j in 0..k { if at[j] == i { old = Some(100 + j as u8); at[j] = usize::MAX } }
            check!(match (c.remove(i), old) { (Some(v), Some(w)) => v.id() == w, (None, None) => true, _ => false });
        }
    }
    let i = any_usize();
    let mut w = None;
    let (mut n, mut low) = (0, None);
    for j in 0..K { if at[j] != usize::MAX { n += 1; if at[j] == i { w = Some(100 + j as u8) } low = match low { Some(l) if l < at[j] => Some(l), _ => Some(at[j]) } } }
    check!(match (c.get(i), w) { (Some(v), Some(w)) => v.id() == w && i < N, (None, None) => true, _ => false });
    check!(c.len() == n && c.is_empty() == (n == 0));
    check!(c.first_index() == low);
}
/// K steps of any kind from any occupation
pub fn history<A: Elem, const N: usize, const K: usize>() where BitsImpl<N>: Bits {
    let (mut c, m) = stale::<A, N>(0);
    let mut v = [0u8; N];
    let mut p = [false; N];
    for i in 0..N { v[i] = m.at(i); p[i] = m.has(i); }
    for k in 0..K {
        let i = below(N);
        let x = 200 + k as u8;
        match below(4) {
            0 => { check!(match c.insert(i, A::mk(x)) { Some(o) => p[i] && o.id() == v[i], None => !p[i] }); p[i] = true; v[i] = x; }
            1 => { check!(match c.remove(i) { Some(o) => p[i] && o.id() == v[i], None => !p[i] }); p[i] = false; }
            2 => { let mut f = N; for j in 0..N { if p[j] && f == N { f = j } } match c.pop() { Some(o) => { check!(f < N && o.id() == v[if f < N { f } else { 0 }]); if f < N { p[f] = false } } None => check!(f == N) } }
            _ => match c.get_mut(i) { Some(o) => { check!(p[i] && o.id() == v[i]); *o = A::mk(x); v[i] = x } None => check!(!p[i]) },
        }
    }
    let mut n = 0;
    for i in 0..N { n += p[i] as usize; check!(match c.get(i) { Some(o) => p[i] && o.id() == v[i], None => !p[i] }); }
    check!(c.len() == n);
}
