//! A callback that panics in the middle of an operation (an element's Drop, Clone or
//! Ord, or the iterator being read): nothing is ever released twice, nothing
//! still held has been released, and the container goes on working.
use crate::build::*;
use crate::own::has;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 500000;

/// q is sound: what it holds has not been released, and it still works as a container
#[inline(always)]
pub fn sound<Q: Deq<A = Tok>>(mut q: Q, w: u8) {
    let len = q.len();
    check!(len <= Q::CAP);
    check!(q.is_empty() == (len == 0) && q.is_full() == (len == Q::CAP));
    let mut held = 0;
    for j in 0..Q::CAP { if j < len && q.at(j).0 == w { held += 1 } }
    // one owner: either it is held once, or it is gone
    check!(held + drops() <= 1);
    if len < Q::CAP && any_bool() { q.push_back(Tok(250)); check!(q.len() == len + 1 && q.at(len).0 == 250); }
    else if len > 0 { let f = q.at(0).0; check!(match q.pop_front() { Some(v) => v.0 == f, None => false }); check!(q.len() == len - 1) }
    drop(q);
    check!(drops() <= 1);
    if held == 1 { check!(drops() == 1) }
}
#[inline(always)]
fn start<Q: Deq<A = Tok>>() -> (Q, Seq, u8) { let (q, s) = Q::any(0); let w = any_u8(); watch(w); arm(any_u8()); (q, s, w) }
fn armed() -> bool { ledger().armed }

pub fn drop_left<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i <= s.len);
    let p = panics(|| q.drop_left(i));
    check!(p == !armed());
    cover!(p);
    ledger().armed = false;
    sound(q, w);
}
pub fn drop_right<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i <= s.len);
    let p = panics(|| q.drop_right(i));
    check!(p == !armed());
    cover!(p);
    ledger().armed = false;
    sound(q, w);
}
pub fn clear<Q: Deq<A = Tok>>() {
    let (mut q, _, w) = start::<Q>();
    let p = panics(|| q.clear());
    check!(p == !armed());
    cover!(p);
    ledger().armed = false;
    sound(q, w);
}
pub fn just_drop<Q: Deq<A = Tok>>() {
    let (q, s, w) = start::<Q>();
    let p = panics(|| drop(q));
    check!(p == !armed());
    cover!(p);
    check!(drops() <= 1 && drops() <= has(s, w));
    if !p { check!(drops() == has(s, w)) }
}
/// assigning through an index releases the old value, which panics
pub fn assign<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i < s.len);
    let p = panics(|| *q.at_mut(i) = Tok(200));
    check!(p == !armed());
    cover!(p);
    ledger().armed = false;
    sound(q, w);
}
pub fn consume<Q: Deq<A = Tok>>() {
    let (q, s, w) = start::<Q>();
    let mut it = q.into_it();
    let n = upto(Q::CAP);
    let mut id = None;
    let p = panics(move || { for _ in 0..n { match if any_bool() { it.next() } else { it.next_back() } { Some(v) => { id = Some(v.0); drop(v) } None => () } } });
    let _ = id;
    check!(p == !armed());
    cover!(p);
    check!(drops() <= has(s, w));
    if !p { check!(drops() == has(s, w)) }
}
pub fn clone<Q: Deq<A = Tok> + Clone>() {
    let (q, s) = Q::any(0);
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let n = upto(Q::CAP);
    light(n as u8);
    let p = panics(|| { let _c = q.clone(); });
    check!(p == (n < s.len));
    cover!(p);
    unlight();
    // every copy made is released again, none of the originals is
    let made = Seq { base: s.base + 100, len: if p { n } else { s.len } };
    check!(drops() == has(made, w));
    ledger().drops = 0;
    check!(same(&q, s.len, |j| s.at(j)));
    sound(q, w);
}
/// copying over what is there: either side may panic
pub fn clone_from<Q: Deq<A = Tok> + Clone>() {
    let (mut q, _) = Q::any(200);
    let (o, s) = Q::any(0);
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let drops_panic = any_bool();
    if drops_panic { arm(any_u8()) } else { light(upto(Q::CAP) as u8) }
    let p = panics(|| q.clone_from(&o));
    cover!(p);
    if drops_panic { check!(p == !armed()); } else { check!(p == unlight()); }
    ledger().armed = false;
    if !p { check!(same(&q, s.len, |j| s.at(j) + 100)); }
    // the originals are all there, unharmed
    check!(same(&o, s.len, |j| s.at(j)));
    if has(s, w) == 1 { check!(drops() == 0); drop(o); check!(drops() == 1); return }
    core::mem::forget(o);
    sound(q, w);
}
/// what is done with each element in turn panics
pub fn each<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let w = any_u8();
    watch(w);
    let n = upto(Q::CAP);
    light(n as u8);
    let f = |v: Tok| { burn(); drop(v) };
    let back = any_bool();
    if any_bool() {
        let p = panics(move || if back { q.into_it().rev().for_each(f) } else { q.into_it().for_each(f) });
        check!(p == (n < s.len) && p == unlight());
        cover!(p);
        check!(drops() <= has(s, w) && (p || drops() == has(s, w)));
    } else {
        let p = panics(|| if back { q.drain().rev().for_each(f) } else { q.drain().for_each(f) });
        check!(p == (n < s.len) && p == unlight());
        sound(q, w);
    }
}
/// a destructor panics while elements are skipped
pub fn skip<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let n = upto(Q::CAP);
    let back = any_bool();
    if any_bool() {
        let p = panics(move || { let mut it = q.into_it(); drop(if back { it.nth_back(n) } else { it.nth(n) }) });
        check!(p == !armed());
        cover!(p);
        check!(drops() <= has(s, w) && (p || drops() == has(s, w)));
    } else {
        let p = panics(|| { let mut it = q.drain(); drop(if back { it.nth_back(n) } else { it.nth(n) }) });
        check!(p == !armed());
        ledger().armed = false;
        sound(q, w);
    }
}
/// looking at contents leaves them alone
pub fn compare<Q: Deq<A = Tok> + PartialEq + Ord>() {
    let (q, s) = Q::any(0);
    let (o, t) = Q::any(if any_bool() { 0 } else { 1 });
    let w = any_u8();
    watch(w);
    light(upto(Q::CAP) as u8);
    let how = below(4);
    let p = panics(|| match how { 0 => { let _ = q == o; } 1 => { let _ = q.cmp(&o); } 2 => { let _ = q.partial_cmp(&o); } _ => { let _ = q != o; } });
    cover!(p);
    check!(p == unlight());
    check!(drops() == 0 && same(&q, s.len, |j| s.at(j)) && same(&o, t.len, |j| t.at(j)));
    drop(o);
    check!(drops() == has(t, w));
    ledger().drops = 0;
    sound(q, w);
}
pub fn insert_ordered<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let v = 50 + any_u8() % 64;
    let w = any_u8();
    watch(w);
    assume(s.len < Q::CAP);
    let n = upto(Q::CAP);
    light(n as u8);
    let p = panics(|| q.insert_ordered(Tok(v)));
    cover!(p);
    unlight();
    if p { check!(same(&q, s.len, |j| s.at(j))); check!(drops() == (w == v) as u8); if w == v { return } }
    sound(q, w);
}
pub fn extend<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let w = any_u8();
    watch(w);
    let (n, k) = (upto(Q::CAP), upto(Q::CAP));
    assume(s.len + n <= Q::CAP);
    light(k as u8);
    let p = panics(|| q.extend(src::<Tok>(150, n)));
    check!(if k < n { p } else { !p || k == n });
    cover!(p);
    unlight();
    let got = if p { k } else { n };
    check!(drops() == 0);
    check!(same(&q, s.len + got, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 }));
    sound(q, w);
}
pub fn insert_from<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let w = any_u8();
    watch(w);
    let (i, n, k) = (upto(Q::CAP), upto(Q::CAP), upto(Q::CAP));
    assume(s.len + n <= Q::CAP && i <= s.len);
    light(k as u8);
    let p = panics(|| q.insert_from(i, src::<Tok>(150, n)));
    cover!(p);
    if unlight() { check!(p) } else { check!(!p) }
    sound(q, w);
}
/// elements without a destructor are not there twice, either
pub fn insert_from_plain<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (i, n, k) = (upto(Q::CAP), upto(Q::CAP), upto(Q::CAP));
    assume(s.len + n <= Q::CAP && i <= s.len);
    light(k as u8);
    let p = panics(|| q.insert_from(i, src::<Q::A>(150, n)));
    cover!(p);
    if unlight() { check!(p) } else { check!(!p) }
    crate::liar::once(&q, s, n);
}
pub fn extend_plain<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (n, k) = (upto(Q::CAP), upto(Q::CAP));
    assume(s.len + n <= Q::CAP);
    light(k as u8);
    let p = panics(|| q.extend(src::<Q::A>(150, n)));
    check!(if k < n { p } else { !p || k == n });
    cover!(p);
    unlight();
    let got = if p { k } else { n };
    check!(same(&q, s.len + got, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 }));
}
/// a comparison panics: a value without a destructor is gone, the others are all there
pub fn insert_ordered_plain<Q: Deq<A = Shy>>() {
    let (mut q, s) = Q::any(0);
    let v = 50 + any_u8() % 64;
    assume(s.len < Q::CAP);
    let n = upto(Q::CAP);
    light(n as u8);
    let p = panics(|| q.insert_ordered(Shy(v)));
    cover!(p);
    unlight();
    if p { check!(same(&q, s.len, |j| s.at(j))); } else { check!(q.len() == s.len + 1) }
}
/// nothing to drop; comparing it may panic
#[derive(Clone)]
pub struct Shy(pub u8);
impl Elem for Shy { #[inline(always)] fn mk(v: u8) -> Shy { Shy(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }
impl PartialEq for Shy { fn eq(&self, o: &Shy) -> bool { self.cmp(o) == core::cmp::Ordering::Equal } }
impl Eq for Shy {}
impl PartialOrd for Shy { fn partial_cmp(&self, o: &Shy) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Shy { fn cmp(&self, o: &Shy) -> core::cmp::Ordering { burn(); self.0.cmp(&o.0) } }
pub fn build<Q: Deq<A = Tok>>() {
    let w = any_u8();
    watch(w);
    let (n, k) = (upto(Q::CAP), upto(Q::CAP));
    light(k as u8);
    let c = any_bool();
    let p = panics(|| { let _q = if c { Q::from_iter(src::<Tok>(150, n)) } else { Q::collect_from(&mut src::<Tok>(150, n), n) }; });
    cover!(p);
    unlight();
    check!(drops() == has(Seq { base: 150, len: if k < n { k } else { n } }, w));
}
