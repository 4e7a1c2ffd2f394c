//! Every documented panic happens, for every offending argument, and leaves
//! the container(s) exactly as they were.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 300000;

#[inline(always)]
fn ok<Q: Deq>(q: &Q, len: usize, f: impl Fn(usize) -> u8) -> bool { same(q, len, f) & (q.is_empty() == (len == 0)) & (q.is_full() == (len == Q::CAP)) }
#[inline(always)] fn mk<Q: Deq>(v: u8) -> Q::A { <Q::A as Elem>::mk(v) }
/// an unchanged container
#[inline(always)]
fn still<Q: Deq>(q: &Q, s: Seq) -> bool { ok(q, s.len, |j| s.at(j)) }

pub fn push_full<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len == Q::CAP);
    let front = any_bool();
    check!(panics(|| if front { q.push_front(mk::<Q>(200)) } else { q.push_back(mk::<Q>(200)) }));
    check!(still(&q, s));
}
/// Chunk only
pub fn pop_empty<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    assume(s.len == 0);
    let front = any_bool();
    check!(panics(|| { if front { q.pop_front(); } else { q.pop_back(); } }));
    check!(still(&q, s));
}
pub fn insert<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    assume(i > s.len || s.len == Q::CAP);
    check!(panics(|| q.insert(i, mk::<Q>(200))));
    check!(still(&q, s));
}
pub fn remove<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    assume(i >= s.len);
    check!(panics(|| { q.remove(i); }));
    check!(still(&q, s));
}
/// Chunk only (RingBuffer's `set` answers None)
pub fn set<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    assume(i >= s.len);
    check!(panics(|| { q.set(i, mk::<Q>(200)); }));
    check!(still(&q, s));
}
pub fn index<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    let k = any_usize();
    assume(i >= s.len);
    let how = below(4);
    // swapping a position with itself is array_ops' to answer
    assume(i != k || how < 2);
    check!(panics(|| match how {
        0 => { q.at(i).id(); }
        1 => { *q.at_mut(i) = mk::<Q>(200); }
        2 => q.swap(i, k),
        _ => q.swap(k, i),
    }));
    check!(still(&q, s));
}
pub fn drop_side<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    assume(i > s.len);
    let left = any_bool();
    check!(panics(|| if left { q.drop_left(i) } else { q.drop_right(i) }));
    check!(still(&q, s));
}
pub fn split_off<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = any_usize();
    assume(i > s.len);
    check!(panics(|| { let _ = q.split_off(i); }));
    check!(still(&q, s));
}
pub fn append<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    assume(s.len + t.len > Q::CAP);
    check!(panics(|| q.append(&mut o)));
    check!(still(&q, s));
    check!(still(&o, t));
}
pub fn drain_from<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    let n = any_usize();
    assume(n > t.len || n > Q::CAP - s.len);
    let back = any_bool();
    check!(panics(|| if back { q.drain_from_back(&mut o, n) } else { q.drain_from_front(&mut o, n) }));
    check!(still(&q, s));
    check!(still(&o, t));
}
pub fn from_part<Q: Deq>() {
    let (mut o, t) = Q::any(100);
    let n = any_usize();
    assume(n > t.len);
    let back = any_bool();
    check!(panics(|| { let _q = if back { Q::from_back(&mut o, n) } else { Q::from_front(&mut o, n) }; }));
    check!(still(&o, t));
}
/// says there are n, has none: the size alone must be refused
struct Claims(usize);
impl Claims { fn it<A>(n: usize) -> ClaimsOf<A> { ClaimsOf(Claims(n), core::marker::PhantomData) } }
struct ClaimsOf<A>(Claims, core::marker::PhantomData<A>);
impl<A: Elem> Iterator for ClaimsOf<A> {
    type Item = A;
    fn next(&mut self) -> Option<A> { if self.0 .0 == 0 { None } else { self.0 .0 -= 1; Some(A::mk(222)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0 .0, Some(self.0 .0)) }
}
impl<A: Elem> ExactSizeIterator for ClaimsOf<A> {}
pub fn insert_from<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (i, n) = (any_usize(), any_usize());
    assume(i > s.len || n > Q::CAP - s.len);
    check!(panics(|| q.insert_from(i, Claims::it(n))));
    check!(still(&q, s));
}
pub fn extend_full<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let n = upto(Q::CAP + 1);
    assume(s.len + n > Q::CAP);
    check!(panics(|| q.extend(src::<Q::A>(150, n))));
    // what had been there still is, in front; what follows was taken from the iterator in order
    let len = q.len();
    check!(s.len <= len && len <= Q::CAP);
    check!(ok(&q, len, |j| if j < s.len { s.at(j) } else { 150u8.wrapping_add((j - s.len) as u8) }));
}
pub fn collect_short<Q: Deq>() {
    let have = upto(Q::CAP);
    let n = any_usize();
    assume(n > have);
    let mut it = src::<Q::A>(100, have);
    check!(panics(|| { let _q = Q::collect_from(&mut it, n); }));
}
pub fn collect_long<Q: Deq>() {
    let have = upto(Q::CAP + 1);
    assume(have > Q::CAP);
    check!(panics(|| { let _q = Q::from_iter(src::<Q::A>(100, have)); }));
}
pub fn too_small<Q: Deq>() {
    // CAP is 0 or 1
    if Q::CAP < 1 { check!(panics(|| { let _ = Q::unit(mk::<Q>(1)); })); }
    check!(panics(|| { let _ = Q::pair(mk::<Q>(1), mk::<Q>(2)); }));
}
pub fn insert_ordered_full<Q: Deq>() where Q::A: Ord {
    let (mut q, s) = Q::any(0);
    assume(s.len == Q::CAP);
    let v = any_u8();
    check!(panics(|| q.insert_ordered(mk::<Q>(v))));
    check!(still(&q, s));
}
