//! Any history of operations, chosen symbolically, against a plain array.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 700000;

/// the obvious sequence
pub struct M<const N: usize> { v: [u8; N], n: usize }
impl<const N: usize> M<N> {
    #[inline(always)] fn put(&mut self, i: usize, x: u8) { let mut k = N - 1; while k > 0 { if k > i { self.v[k] = self.v[k - 1] } else if k == i { self.v[k] = x } k -= 1; } if i == 0 { self.v[0] = x } self.n += 1; }
    #[inline(always)] fn take(&mut self, i: usize) -> u8 { let mut x = 0; for k in 0..N { if k == i { x = self.v[k] } if k >= i && k + 1 < N { self.v[k] = self.v[k + 1] } } self.n -= 1; x }
    #[inline(always)] fn cut(&mut self, i: usize) { for _ in 0..N { if self.n > i { self.n -= 1 } } }
    #[inline(always)] fn skip(&mut self, i: usize) { for k in 0..N { if k < i { self.take(0); } } }
}
#[inline(always)]
fn agree<Q: Deq, const N: usize>(q: &Q, m: &M<N>) -> bool {
    let mut r = (q.len() == m.n) & (q.is_empty() == (m.n == 0)) & (q.is_full() == (m.n == N));
    for k in 0..N { if k < m.n { match q.get(k) { Some(v) => r &= v.id() == m.v[k], None => r = false } } }
    r
}
#[inline(always)]
fn step<Q: Deq + for<'a> Extend<&'a A>, A: Elem, const N: usize>(q: &mut Q, m: &mut M<N>, fresh: u8) where Q: Deq<A = A> {
    let op = below(16);
    let i = upto(N);
    let n = m.n;
    match op {
        0 => { assume(n < N); q.push_back(Q::A::mk(fresh)); m.put(n, fresh); }
        1 => { assume(n < N); q.push_front(Q::A::mk(fresh)); m.put(0, fresh); }
        2 => { assume(n > 0); check!(match q.pop_back() { Some(v) => v.id() == m.take(n - 1), None => false }); }
        3 => { assume(n > 0); check!(match q.pop_front() { Some(v) => v.id() == m.take(0), None => false }); }
        4 => { assume(n < N && i <= n); q.insert(i, Q::A::mk(fresh)); m.put(i, fresh); }
        5 => { assume(i < n); check!(q.remove(i).id() == m.take(i)); }
        6 => { assume(i < n); let old = m.take(i); m.put(i, fresh); check!(q.set(i, Q::A::mk(fresh)).id() == old); }
        7 => { assume(i <= n); q.drop_left(i); m.skip(i); }
        8 => { assume(i <= n); q.drop_right(i); m.cut(i); }
        9 => { assume(i <= n); let r = q.split_off(i); check!(r.len() == n - i); if i < n { check!(r.at(n - i - 1).id() == m.v[n - 1]); } m.cut(i);  }
        10 => { assume(i <= n); let r = q.split_off(i); let mut l = core::mem::replace(q, r); l.append(q); check!(q.len() == 0 && l.len() == n); if any_bool() { *q = l } else { m.cut(0) } }
        13 => {
            // some of one part moves back to the other; either goes on
            assume(i <= n);
            let mut r = q.split_off(i);
            let k = upto(N);
            let e;
            if any_bool() { assume(k <= n - i); q.drain_from_front(&mut r, k); e = i + k } else { assume(k <= i); r.drain_from_back(q, k); e = i - k }
            check!(q.len() == e && r.len() == n - e);
            if any_bool() { m.cut(e) } else { m.skip(e); *q = r }
        }
        11 => { q.clear(); m.cut(0); }
        14 => {
            // several at the end, counted or not, by value or copied from elsewhere
            assume(n + i <= N);
            let from: [A; N] = core::array::from_fn(|k| A::mk(fresh + k as u8));
            match below(3) { 0 => Deq::extend(q, src::<A>(fresh, i)), 1 => Extend::<&A>::extend(q, &from[..i]), _ => { let r = Q::from_iter(q.drain().chain(src::<A>(fresh, i))); *q = r } }
            for k in 0..N { if k < i { m.put(n + k, fresh + k as u8) } }
        }
        12 => { assume(i <= n && n < N); q.insert_from(i, src::<Q::A>(fresh, 1)); m.put(i, fresh); }
        _ => { assume(i <= n); let r = if any_bool() { m.cut(i); Q::from_front(q, i) } else { m.skip(n - i); Q::from_back(q, i) }; *q = r; }
    }
}
/// K steps from any reachable layout
pub fn any_then<Q: Deq<A = A> + for<'a> Extend<&'a A>, A: Elem, const N: usize, const K: usize>() {
    let (mut q, s) = Q::any(0);
    let mut m = M::<N> { v: [0; N], n: s.len };
    for k in 0..N { m.v[k] = s.at(k); }
    for k in 0..K { step(&mut q, &mut m, 150 + 20 * k as u8); }
    check!(agree(&q, &m));
}
/// K steps from nothing
pub fn new_then<Q: Deq<A = A> + for<'a> Extend<&'a A>, A: Elem, const N: usize, const K: usize>() {
    let mut q = Q::new();
    let mut m = M::<N> { v: [0; N], n: 0 };
    for k in 0..K { step(&mut q, &mut m, 150 + 20 * k as u8); }
    check!(agree(&q, &m));
}
