//! Single element operations, from every reachable layout, against a plain sequence.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 100000;

/// what must hold of q whatever happened to it: it is f(0)..f(len-1) and every
/// way of asking agrees
#[inline(always)]
pub fn ok<Q: Deq>(q: &Q, len: usize, f: impl Fn(usize) -> u8) -> bool {
    same(q, len, f) & (q.is_empty() == (len == 0)) & (q.is_full() == (len == Q::CAP))
}
#[inline(always)] fn mk<Q: Deq>(v: u8) -> Q::A { <Q::A as Elem>::mk(v) }

pub fn push_back<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len < Q::CAP);
    q.push_back(mk::<Q>(200));
    check!(ok(&q, s.len + 1, |j| if j < s.len { s.at(j) } else { 200 }));
}
pub fn push_front<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len < Q::CAP);
    q.push_front(mk::<Q>(200));
    check!(ok(&q, s.len + 1, |j| if j > 0 { s.at(j - 1) } else { 200 }));
}
pub fn pop_back<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len > 0);
    check!(match q.pop_back() { Some(v) => v.id() == s.at(s.len - 1), None => false });
    check!(ok(&q, s.len - 1, |j| s.at(j)));
}
pub fn pop_front<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len > 0);
    check!(match q.pop_front() { Some(v) => v.id() == s.at(0), None => false });
    check!(ok(&q, s.len - 1, |j| s.at(j + 1)));
}
/// RingBuffer only: popping nothing
pub fn pop_none<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len == 0);
    check!(if any_bool() { q.pop_front() } else { q.pop_back() }.is_none());
    check!(ok(&q, 0, |_| 0));
}
pub fn insert<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(s.len < Q::CAP && i <= s.len);
    q.insert(i, mk::<Q>(200));
    check!(ok(&q, s.len + 1, |j| if j < i { s.at(j) } else if j == i { 200 } else { s.at(j - 1) }));
}
pub fn remove<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(i < s.len);
    let v = q.remove(i);
    check!(v.id() == s.at(i));
    check!(ok(&q, s.len - 1, |j| if j < i { s.at(j) } else { s.at(j + 1) }));
}
pub fn set<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(i < s.len);
    let v = q.set(i, mk::<Q>(200));
    check!(v.id() == s.at(i));
    check!(ok(&q, s.len, |j| if j == i { 200 } else { s.at(j) }));
}
pub fn write_through<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(i < s.len);
    let how = below(4);
    match how {
        0 => *q.at_mut(i) = mk::<Q>(200),
        1 => match q.get_mut(i) { Some(p) => *p = mk::<Q>(200), None => check!(false) },
        2 => { assume(i == 0); match q.first_mut() { Some(p) => *p = mk::<Q>(200), None => check!(false) } }
        _ => { assume(i == s.len - 1); match q.last_mut() { Some(p) => *p = mk::<Q>(200), None => check!(false) } }
    }
    check!(ok(&q, s.len, |j| if j == i { 200 } else { s.at(j) }));
}
/// a full 64-bit index: `get` answers Some exactly for the positions there are
pub fn look<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    check!(match q.get(i) { Some(v) => i < s.len && v.id() == s.at(i), None => i >= s.len });
    check!(q.get_mut(i).is_some() == (i < s.len));
    check!(match q.first() { Some(v) => s.len > 0 && v.id() == s.at(0), None => s.len == 0 });
    check!(match q.last() { Some(v) => s.len > 0 && v.id() == s.at(s.len - 1), None => s.len == 0 });
    check!(q.first_mut().is_some() == (s.len > 0) && q.last_mut().is_some() == (s.len > 0));
    check!(ok(&q, s.len, |j| s.at(j)));
}
pub fn swap<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (i, k) = (upto(Q::CAP), upto(Q::CAP));
    assume(i < s.len && k < s.len);
    q.swap(i, k);
    check!(ok(&q, s.len, |j| if j == i { s.at(k) } else if j == k { s.at(i) } else { s.at(j) }));
}
pub fn drop_left<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(i <= s.len);
    q.drop_left(i);
    check!(ok(&q, s.len - i, |j| s.at(j + i)));
}
pub fn drop_right<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    assume(i <= s.len);
    q.drop_right(i);
    check!(ok(&q, i, |j| s.at(j)));
}
pub fn clear<Q: Deq>() {
    let (mut q, _) = Q::any(0);
    q.clear();
    check!(ok(&q, 0, |_| 0));
    for k in 0..Q::CAP { if any_bool() { q.push_back(mk::<Q>(k as u8)) } else { q.push_front(mk::<Q>(k as u8)) } }
    check!(q.is_full() && q.len() == Q::CAP);
}
/// a copy, made afresh or over another container, is made of copies; the two are independent
pub fn copy<Q: Deq + Clone>() {
    let (mut q, s) = Q::any(0);
    let mut c = if any_bool() { q.clone() } else { let mut t = Q::any(100).0; t.clone_from(&q); t };
    let f = |j| s.at(j).wrapping_add(Q::A::BIAS);
    check!(ok(&c, s.len, f));
    check!(ok(&q, s.len, |j| s.at(j)));
    let (i, n) = (below(Q::CAP), s.len);
    if any_bool() {
        if i < n { *c.at_mut(i) = mk::<Q>(200) }
        if n < Q::CAP { c.push_back(mk::<Q>(201)) }
        check!(ok(&q, n, |j| s.at(j)));
        check!(same(&c, if n < Q::CAP { n + 1 } else { n }, |j| if j == n { 201 } else if j == i { 200 } else { f(j) }));
    } else {
        if i < n { *q.at_mut(i) = mk::<Q>(200) }
        if n < Q::CAP { q.push_front(mk::<Q>(201)) }
        check!(ok(&c, n, f));
    }
}
pub fn make<Q: Deq>() {
    check!(ok(&Q::new(), 0, |_| 0));
    check!(ok(&Q::default(), 0, |_| 0));
    check!(ok(&Q::unit(mk::<Q>(7)), 1, |_| 7));
    if Q::CAP >= 2 { check!(ok(&Q::pair(mk::<Q>(7), mk::<Q>(9)), 2, |j| if j == 0 { 7 } else { 9 })); }
    // and they are usable
    let mut q = if any_bool() || Q::CAP < 2 { Q::unit(mk::<Q>(7)) } else { Q::pair(mk::<Q>(7), mk::<Q>(9)) };
    let n = q.len();
    if n < Q::CAP { q.push_front(mk::<Q>(1)); check!(ok(&q, n + 1, |j| if j == 0 { 1 } else { 5 + 2 * j as u8 })); }
}
