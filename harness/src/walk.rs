//! Iterators of Chunk and RingBuffer: any interleaving of the two ends yields
//! every element exactly once, in order, with exact remaining lengths, and
//! nothing for ever after.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 1700000;

/// steps `it` n times from either end; f sees (position from the front, value)
#[inline(always)]
fn go<I: DoubleEndedIterator + ExactSizeIterator>(it: &mut I, s: Seq, steps: usize, n: usize, mut good: impl FnMut(usize, I::Item) -> bool) -> (usize, usize) {
    let (mut l, mut r) = (0, s.len);
    for k in 0..steps { if k < n {
        check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
        if any_bool() { match it.next() { Some(v) => { check!(l < r && good(l, v)); l += 1 } None => check!(l == r) } }
        else { match it.next_back() { Some(v) => { check!(l < r && good(r - 1, v)); r -= 1 } None => check!(l == r) } }
    } }
    check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
    (l, r)
}
pub fn iter<Q: Deq>() {
    let (q, s) = Q::any(0);
    let mut it = q.iter();
    let (l, r) = go(&mut it, s, Q::CAP + 2, Q::CAP + 2, |i, v| v.id() == s.at(i));
    check!(l == r && it.next().is_none() && it.next_back().is_none());
    check!(same(&q, s.len, |j| s.at(j)));
}
/// every element is handed out once, and writes land where they should
pub fn iter_mut<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let n = upto(Q::CAP);
    let (l, r);
    {
        let mut it = q.iter_mut();
        (l, r) = go(&mut it, s, Q::CAP, n, |i, v| { let g = v.id() == s.at(i); *v = Q::A::mk(100 + i as u8); g });
        if l == r { check!(it.next().is_none() && it.next_back().is_none()); }
    }
    check!(same(&q, s.len, |j| if j >= l && j < r { s.at(j) } else { 100 + j as u8 }));
}
/// two of them held at a time are two different elements
pub fn held<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    {
        let mut it = q.iter_mut();
        let a = it.next();
        let b = if any_bool() { it.next_back() } else { it.next() };
        match (a, b) {
            (Some(a), Some(b)) => { *a = Q::A::mk(100); *b = Q::A::mk(101); check!(a.id() == 100 && b.id() == 101 && s.len > 1) }
            (Some(a), None) => { check!(s.len == 1); *a = Q::A::mk(100) }
            (None, None) => check!(s.len == 0),
            _ => check!(false),
        }
    }
    check!(q.len() == s.len);
    if s.len > 0 { check!(q.at(0).id() == 100) }
}
pub fn owned<Q: Deq>() {
    let (q, s) = Q::any(0);
    let mut it = q.into_it();
    let (l, r) = go(&mut it, s, Q::CAP + 2, Q::CAP + 2, |i, v| v.id() == s.at(i));
    check!(l == r && it.next().is_none() && it.next_back().is_none());
}
/// a drain removes what it yields; run to the end it leaves nothing; the rest stays usable
pub fn drain<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let n = upto(Q::CAP + 1);
    let (l, r);
    {
        let mut it = q.drain();
        (l, r) = go(&mut it, s, Q::CAP + 1, n, |i, v| v.id() == s.at(i));
        if l == r { check!(it.next().is_none() && it.next_back().is_none()); }
    }
    let k = q.len();
    check!(k <= r - l && (l < r || k == 0));
    // whatever is kept is a run of what was not yielded
    check!(k == 0 || k == r - l);
    check!(same(&q, k, |j| s.at(l + j)));
    if k < Q::CAP { q.push_back(Q::A::mk(200)); check!(same(&q, k + 1, |j| if j < k { s.at(l + j) } else { 200 })) }
}
/// folding, counting, nth, last, rev: derived from the two ends
pub fn derived<Q: Deq>() {
    let (q, s) = Q::any(0);
    let n = any_usize();
    match below(6) {
        0 => { let mut k = 0; for v in q.iter() { check!(v.id() == s.at(k)); k += 1 } check!(k == s.len) }
        1 => { let mut k = s.len; for v in q.iter().rev() { check!(k > 0 && v.id() == s.at(k - 1)); k -= 1 } check!(k == 0) }
        2 => check!(q.iter().count() == s.len),
        3 => { assume(n <= Q::CAP); check!(match q.iter().nth(n) { Some(v) => n < s.len && v.id() == s.at(n), None => n >= s.len }) }
        4 => check!(match q.iter().last() { Some(v) => s.len > 0 && v.id() == s.at(s.len - 1), None => s.len == 0 }),
        _ => { assume(n <= Q::CAP); let mut it = q.into_it(); check!(match it.nth(n) { Some(v) => n < s.len && v.id() == s.at(n), None => n >= s.len }); check!(it.len() == if n < s.len { s.len - n - 1 } else { 0 }) }
    }
}
/// large ones: the first steps from either end
pub fn ends<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let b = any_bool();
    macro_rules! two { ($it:expr) => { {
        let mut it = $it;
        let (x, y) = if b { let x = it.next(); (x, it.next_back()) } else { let y = it.next_back(); (it.next(), y) };
        check!(match (&x, &y) {
            (Some(x), Some(y)) => s.len > 1 && x.id() == s.at(0) && y.id() == s.at(s.len - 1),
            (Some(x), None) => b && s.len == 1 && x.id() == s.at(0),
            (None, Some(y)) => !b && s.len == 1 && y.id() == s.at(0),
            (None, None) => s.len == 0,
        });
        check!(it.len() == if s.len > 2 { s.len - 2 } else { 0 });
        match it.next() { Some(x) => check!(s.len > 2 && x.id() == s.at(1)), None => check!(s.len <= 2) }
    } } }
    match below(4) { 0 => two!(q.iter()), 1 => two!(q.iter_mut()), 2 => two!(q.into_it()), _ => two!(q.drain()) }
}
/// skipping ahead, then the rest in one go
pub fn skips<Q: Deq>() {
    let (mut q, s) = Q::any(0);
    let (f, b, back) = (any_bool(), any_bool(), any_bool());
    let n = any_usize();
    let rest = below(4);
    macro_rules! go { ($it:expr) => { {
        let mut it = $it;
        let (mut l, mut r) = (0, s.len);
        if f { match it.next() { Some(v) => { check!(v.id() == s.at(0)); l = 1 } None => check!(r == 0) } }
        if b { match it.next_back() { Some(v) => { check!(l < r && v.id() == s.at(r - 1)); r -= 1 } None => check!(l == r) } }
        let want = if n < r - l { if back { r - 1 - n } else { l + n } } else { usize::MAX };
        let got = if back { it.nth_back(n) } else { it.nth(n) };
        match got { Some(v) => check!(want != usize::MAX && v.id() == s.at(want)), None => check!(want == usize::MAX) }
        if want == usize::MAX { l = r } else if back { r = want } else { l = want + 1 }
        check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
        match rest {
            0 => check!(it.count() == r - l),
            1 => match it.last() { Some(v) => check!(l < r && v.id() == s.at(r - 1)), None => check!(l == r) },
            2 => { let k = it.fold(l, |k, v| { check!(v.id() == s.at(k)); k + 1 }); check!(k == r) }
            _ => { let k = it.rfold(r, |k, v| { check!(k > l && v.id() == s.at(k - 1)); k - 1 }); check!(k == l) }
        }
    } } }
    match below(4) { 0 => go!(q.iter()), 1 => go!(q.iter_mut()), 2 => go!(q.into_it()), _ => go!(q.drain()) }
}
