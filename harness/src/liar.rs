//! Iterators that lie about their length (safe code may): memory stays sound, nothing
//! is released twice, and if the call returns the container holds what it should.
use crate::build::*;
use crate::own::has;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 600000;

/// claims `said`, later `again`; yields `n`
pub struct Liar<A> { said: usize, again: usize, asked: core::cell::Cell<bool>, src: SrcOf<A> }
impl<A: Elem> Liar<A> { pub fn new(said: usize, again: usize, n: usize) -> Self { Liar { said, again, asked: core::cell::Cell::new(false), src: src(150, n) } } }
impl<A: Elem> Liar<A> { fn say(&self) -> usize { if self.asked.replace(true) { self.again } else { self.said } } }
impl<A: Elem> Iterator for Liar<A> {
    type Item = A;
    fn next(&mut self) -> Option<A> { self.src.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.say(); (n, Some(n)) }
}
impl<A: Elem> ExactSizeIterator for Liar<A> { fn len(&self) -> usize { self.say() } }

#[inline(always)]
fn sound<Q: Deq<A = Tok>>(mut q: Q, w: u8) {
    let len = q.len();
    check!(len <= Q::CAP);
    check!(q.is_empty() == (len == 0) && q.is_full() == (len == Q::CAP));
    let mut held = 0;
    for j in 0..Q::CAP { if j < len && q.at(j).0 == w { held += 1 } }
    check!(held + drops() <= 1);
    if len < Q::CAP && any_bool() { q.push_back(Tok(250)); check!(q.len() == len + 1 && q.at(len).0 == 250); }
    drop(q);
    check!(drops() <= 1);
    if held == 1 { check!(drops() == 1) }
}
pub fn insert_from<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let w = any_u8();
    watch(w);
    let i = upto(Q::CAP);
    let (said, again) = (any_usize(), any_usize());
    let n = upto(Q::CAP + 1);
    assume(i <= s.len);
    let p = panics(|| q.insert_from(i, Liar::new(said, again, n)));
    cover!(p);
    cover!(!p && said != n);
    let len = q.len();
    if !p {
        // it took what was announced, or (at the end of a ring buffer) all there was
        let k = len.wrapping_sub(s.len);
        check!(k <= n && (k == said || (k == n && i == s.len)));
        check!(same(&q, s.len + k, |j| if j < i { s.at(j) } else if j < i + k { 150 + (j - i) as u8 } else { s.at(j - k) }));
        check!(drops() == has(Seq { base: 150 + k as u8, len: 0 }, w));
    }
    sound(q, w);
}
/// what is held was there or was yielded, and is in one place only
#[inline(always)]
pub fn once<Q: Deq>(q: &Q, s: Seq, n: usize) {
    let (j, k) = (below(Q::CAP), below(Q::CAP));
    if j < k && k < q.len() {
        let (a, b) = (q.at(j).id(), q.at(k).id());
        check!(a != b);
        check!((a.wrapping_sub(s.base) as usize) < s.len || (a.wrapping_sub(150) as usize) < n);
        check!((b.wrapping_sub(s.base) as usize) < s.len || (b.wrapping_sub(150) as usize) < n);
    }
}
/// the plain-data version: where the contents are exactly known after success
pub fn insert_from_plain<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let i = upto(Q::CAP);
    let (said, again) = (any_usize(), any_usize());
    let n = upto(Q::CAP + 1);
    assume(i <= s.len);
    let p = panics(|| q.insert_from(i, Liar::new(said, again, n)));
    let len = q.len();
    check!(len <= Q::CAP);
    if !p {
        let k = len.wrapping_sub(s.len);
        check!(k <= n && (k == said || (k == n && i == s.len)));
        check!(same(&q, s.len + k, |j| if j < i { s.at(j) } else if j < i + k { 150 + (j - i) as u8 } else { s.at(j - k) }));
    }
    once(&q, s, n);
    if len < Q::CAP { q.push_front(Q::A::mk(1)); check!(q.len() == len + 1 && q.at(0).id() == 1); }
}
pub fn extend<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let w = any_u8();
    watch(w);
    let (said, again) = (any_usize(), any_usize());
    let n = upto(Q::CAP + 1);
    let p = panics(|| q.extend(Liar::new(said, again, n)));
    check!(p == (s.len + n > Q::CAP));
    if !p { check!(same(&q, s.len + n, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 })); check!(drops() == 0); }
    sound(q, w);
}
pub fn build<Q: Deq<A = Tok>>() {
    let w = any_u8();
    watch(w);
    let (said, again) = (any_usize(), any_usize());
    let (n, k) = (upto(Q::CAP + 1), upto(Q::CAP));
    let mut it = Liar::new(said, again, n);
    let c = any_bool();
    let mut q = Q::new();
    let p = panics(|| q = if c { Q::from_iter(it) } else { Q::collect_from(&mut it, k) });
    check!(p == if c { n > Q::CAP } else { k > n });
    if !p { check!(same(&q, if c { n } else { k }, |j| 150 + j as u8)); }
    sound(q, w);
}
/// lies about how many references there are
pub struct LiarRef<'a> { said: usize, again: usize, asked: core::cell::Cell<bool>, it: core::slice::Iter<'a, u8> }
impl<'a> LiarRef<'a> { pub fn new(said: usize, again: usize, it: &'a [u8]) -> Self { LiarRef { said, again, asked: core::cell::Cell::new(false), it: it.iter() } } }
impl<'a> Iterator for LiarRef<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = if self.asked.replace(true) { self.again } else { self.said }; (n, Some(n)) }
}
pub fn extend_refs<Q: Deq<A = u8> + for<'a> Extend<&'a u8>>() {
    let (mut q, s) = Q::any(0);
    let v: [u8; 8] = [150, 151, 152, 153, 154, 155, 156, 157];
    let n = upto(Q::CAP + 1);
    let p = panics(|| Extend::extend(&mut q, LiarRef::new(any_usize(), any_usize(), &v[..n])));
    check!(p == (s.len + n > Q::CAP));
    let len = if p { q.len() } else { s.len + n };
    check!(len <= Q::CAP);
    check!(same(&q, len, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 }));
}
