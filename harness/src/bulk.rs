//! Operations that move many elements at once, from every reachable layout of
//! both sides, against plain sequences.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 200000;

#[inline(always)]
fn ok<Q: Deq>(q: &Q, len: usize, f: impl Fn(usize) -> u8) -> bool {
    same(q, len, f) & (q.is_empty() == (len == 0)) & (q.is_full() == (len == Q::CAP))
}
pub fn append<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    assume(s.len + t.len <= Q::CAP);
    q.append(&mut o);
    check!(ok(&q, s.len + t.len, |j| if j < s.len { s.at(j) } else { t.at(j - s.len) }));
    check!(ok(&o, 0, |_| 0));
}
pub fn drain_from_front<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len && s.len + n <= Q::CAP);
    q.drain_from_front(&mut o, n);
    check!(ok(&q, s.len + n, |j| if j < s.len { s.at(j) } else { t.at(j - s.len) }));
    check!(ok(&o, t.len - n, |j| t.at(j + n)));
}
pub fn drain_from_back<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len && s.len + n <= Q::CAP);
    q.drain_from_back(&mut o, n);
    check!(ok(&q, s.len + n, |j| if j < n { t.at(t.len - n + j) } else { s.at(j - n) }));
    check!(ok(&o, t.len - n, |j| t.at(j)));
}
pub fn drain_from<Q: Deq>() {
    let (mut o, t) = Q::any(100);
    let q = Q::drain_from(&mut o);
    check!(ok(&q, t.len, |j| t.at(j)));
    check!(ok(&o, 0, |_| 0));
}
pub fn from_front<Q: Deq>() {
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len);
    let q = Q::from_front(&mut o, n);
    check!(ok(&q, n, |j| t.at(j)));
    check!(ok(&o, t.len - n, |j| t.at(j + n)));
}
pub fn from_back<Q: Deq>() {
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len);
    let q = Q::from_back(&mut o, n);
    check!(ok(&q, n, |j| t.at(t.len - n + j)));
    check!(ok(&o, t.len - n, |j| t.at(j)));
}
pub fn split_off<Q: Deq>() {
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len);
    let q = o.split_off(n);
    check!(ok(&q, t.len - n, |j| t.at(j + n)));
    check!(ok(&o, n, |j| t.at(j)));
}
pub fn insert_from<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (i, n) = (upto(Q::CAP), upto(Q::CAP));
    assume(i <= s.len && s.len + n <= Q::CAP);
    q.insert_from(i, src::<Q::A>(150, n));
    check!(ok(&q, s.len + n, |j| if j < i { s.at(j) } else if j < i + n { 150u8.wrapping_add((j - i) as u8) } else { s.at(j - n) }));
}
pub fn extend<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let n = upto(Q::CAP);
    assume(s.len + n <= Q::CAP);
    if any_bool() { q.extend(src::<Q::A>(150, n)) } else { q.extend(blind(src::<Q::A>(150, n))) }
    check!(ok(&q, s.len + n, |j| if j < s.len { s.at(j) } else { 150u8.wrapping_add((j - s.len) as u8) }));
}
pub fn from_iter<Q: Deq>() {
    let n = upto(Q::CAP);
    let q = if any_bool() { Q::from_iter(src::<Q::A>(150, n)) } else { Q::from_iter(blind(src::<Q::A>(150, n))) };
    check!(ok(&q, n, |j| 150u8.wrapping_add(j as u8)));
}
pub fn collect_from<Q: Deq>() {
    let (n, have) = (upto(Q::CAP), upto(2 * Q::CAP));
    assume(n <= have);
    let mut it = src::<Q::A>(100, have);
    let q = Q::collect_from(&mut it, n);
    check!(ok(&q, n, |j| 100u8.wrapping_add(j as u8)));
    // and not one more was taken
    check!(it.0.left == have - n);
}
/// from borrowed elements: copies arrive, the originals stay
pub fn extend_refs<Q: Deq + for<'a> Extend<&'a A>, A: Elem>() where Q: Deq<A = A> {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    assume(s.len + t.len <= Q::CAP);
    match below(3) { 0 => Extend::<&A>::extend(&mut q, o.iter()), 1 => Extend::<&A>::extend(&mut q, o.iter().rev().rev()), _ => { let c = o.split_off(0); Extend::<&A>::extend(&mut q, c.iter()); o = c } }
    check!(ok(&q, s.len + t.len, |j| if j < s.len { s.at(j) } else { t.at(j - s.len).wrapping_add(A::BIAS) }));
    check!(ok(&o, t.len, |j| t.at(j)));
}
/// a container passed through a bulk operation is as good as any other: one more step on each side
pub fn after<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    let n = upto(Q::CAP);
    assume(n <= t.len && s.len + n <= Q::CAP);
    let back = any_bool();
    if back { q.drain_from_back(&mut o, n) } else { q.drain_from_front(&mut o, n) }
    let (mut a, mut b) = (s.len + n, t.len - n);
    if a < Q::CAP { q.push_front(Q::A::mk(251)); a += 1; check!(q.at(0).id() == 251); }
    if a < Q::CAP { q.push_back(Q::A::mk(252)); a += 1; check!(q.at(a - 1).id() == 252); }
    if b < Q::CAP { o.push_back(Q::A::mk(253)); b += 1; check!(o.at(b - 1).id() == 253); }
    if b < Q::CAP { o.push_front(Q::A::mk(254)); b += 1; check!(o.at(0).id() == 254); }
    check!(q.len() == a && o.len() == b);
    let pre = if s.len + n < Q::CAP { 1 } else { 0 };
    let j = below(Q::CAP);
    if j < s.len + n {
        let w = if back { if j < n { t.at(t.len - n + j) } else { s.at(j - n) } } else if j < s.len { s.at(j) } else { t.at(j - s.len) };
        check!(q.at(j + pre).id() == w);
    }
}
