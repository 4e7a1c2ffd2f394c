//! Every value handed in is released exactly once, at the moment the operation
//! says so.  The watched token is symbolic: it stands for each token at once.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
const FILE: u32 = 400000;

#[inline(always)]
pub fn has(s: Seq, w: u8) -> u8 { (w >= s.base && ((w - s.base) as usize) < s.len) as u8 }
#[inline(always)]
fn start<Q: Deq<A = Tok>>() -> (Q, Seq, u8) { let (q, s) = Q::any(0); let w = any_u8(); watch(w); (q, s, w) }
/// nothing released so far; everything once the container goes
macro_rules! end { ($q:expr, $before:expr, $after:expr) => { check!(drops() == $before); drop($q); check!(drops() == $after); } }

pub fn just_drop<Q: Deq<A = Tok>>() { let (q, s, w) = start::<Q>(); end!(q, 0, has(s, w)); }
pub fn push<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    assume(s.len < Q::CAP);
    if any_bool() { q.push_front(Tok(200)) } else { q.push_back(Tok(200)) }
    end!(q, 0, has(s, w) + (w == 200) as u8);
}
pub fn pop<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    assume(s.len > 0);
    let v = if any_bool() { q.pop_front() } else { q.pop_back() };
    check!(drops() == 0);
    let v = match v { Some(v) => v, None => { check!(false); return } };
    let id = v.0;
    drop(v);
    end!(q, (w == id) as u8, has(s, w));
}
pub fn insert<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(s.len < Q::CAP && i <= s.len);
    q.insert(i, Tok(200));
    end!(q, 0, has(s, w) + (w == 200) as u8);
}
pub fn insert_ordered<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let v = below(Q::CAP + 2);
    assume(s.len < Q::CAP && (v < s.base as usize || v >= s.base as usize + s.len));
    q.insert_ordered(Tok(v as u8));
    end!(q, 0, has(s, w) + (w == v as u8) as u8);
}
pub fn remove<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i < s.len);
    let v = q.remove(i);
    check!(drops() == 0);
    drop(v);
    end!(q, (w == s.at(i)) as u8, has(s, w));
}
pub fn set<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i < s.len);
    let how = any_bool();
    if how { let v = q.set(i, Tok(200)); check!(drops() == 0); drop(v); } else { *q.at_mut(i) = Tok(200); }
    end!(q, (w == s.at(i)) as u8, has(s, w) + (w == 200) as u8);
}
pub fn drop_side<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i <= s.len);
    let gone = if any_bool() { q.drop_left(i); Seq { base: s.base, len: i } } else { q.drop_right(i); Seq { base: s.at(i), len: s.len - i } };
    end!(q, has(gone, w), has(s, w));
}
pub fn clear<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    q.clear();
    end!(q, has(s, w), has(s, w));
}
pub fn split_off<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let i = upto(Q::CAP);
    assume(i <= s.len);
    let r = q.split_off(i);
    check!(drops() == 0);
    drop(r);
    end!(q, has(Seq { base: s.at(i), len: s.len - i }, w), has(s, w));
}
pub fn transfer<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t, ) = Q::any(100);
    let w = any_u8();
    watch(w);
    let n = upto(Q::CAP);
    assume(n <= t.len && s.len + n <= Q::CAP);
    let how = below(3);
    let moved = match how {
        0 => { q.drain_from_front(&mut o, n); Seq { base: t.base, len: n } }
        1 => { q.drain_from_back(&mut o, n); Seq { base: t.at(t.len - n), len: n } }
        _ => { assume(n == t.len); q.append(&mut o); t }
    };
    end!(q, 0, has(s, w) + has(moved, w));
    end!(o, has(s, w) + has(moved, w), has(s, w) + has(t, w));
}
pub fn from_part<Q: Deq<A = Tok>>() {
    let (mut o, t, w) = start::<Q>();
    let n = upto(Q::CAP);
    assume(n <= t.len);
    let how = below(3);
    let (q, moved) = match how {
        0 => (Q::from_front(&mut o, n), Seq { base: t.base, len: n }),
        1 => (Q::from_back(&mut o, n), Seq { base: t.at(t.len - n), len: n }),
        _ => (Q::drain_from(&mut o), t),
    };
    end!(q, 0, has(moved, w));
    end!(o, has(moved, w), has(t, w));
}
pub fn insert_from<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let (i, n) = (upto(Q::CAP), upto(Q::CAP));
    assume(i <= s.len && s.len + n <= Q::CAP);
    q.insert_from(i, src::<Tok>(150, n));
    end!(q, 0, has(s, w) + has(Seq { base: 150, len: n }, w));
}
pub fn extend<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let n = upto(Q::CAP);
    assume(s.len + n <= Q::CAP);
    q.extend(src::<Tok>(150, n));
    end!(q, 0, has(s, w) + has(Seq { base: 150, len: n }, w));
}
/// refused operations: the container keeps its own, the argument is released
pub fn refused<Q: Deq<A = Tok>>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    let w = any_u8();
    watch(w);
    let (i, n) = (any_usize(), any_usize());
    let how = below(10);
    let mut arg = 0;
    let mut it = Seq { base: 150, len: 0 };
    check!(panics(|| match how {
        0 => { assume(s.len == Q::CAP); arg = 200; q.push_back(Tok(200)) }
        1 => { assume(s.len == Q::CAP); arg = 200; q.push_front(Tok(200)) }
        2 => { assume(s.len == Q::CAP || i > s.len); arg = 200; q.insert(i, Tok(200)) }
        3 => { assume(i >= s.len); q.remove(i); }
        4 => { assume(i > s.len); q.drop_left(i); }
        5 => { assume(i > s.len); q.drop_right(i); }
        6 => { assume(i > s.len); q.split_off(i); }
        7 => { assume(n > t.len || n > Q::CAP - s.len); q.drain_from_front(&mut o, n); }
        8 => { assume(n > t.len || n > Q::CAP - s.len); q.drain_from_back(&mut o, n); }
        _ => { it.len = upto(Q::CAP); assume(it.len > Q::CAP - s.len || i > s.len); q.insert_from(i, src::<Tok>(150, it.len)) }
    }));
    let a = (arg != 0 && w == arg) as u8;
    end!(q, a, a + has(s, w));
    end!(o, a + has(s, w), a + has(s, w) + has(t, w));
}
/// too much for the container: what fits stays, the rest is released, nothing twice
pub fn overflow<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let n = upto(Q::CAP + 1);
    assume(s.len + n > Q::CAP);
    check!(panics(|| q.extend(src::<Tok>(150, n))));
    let made = Seq { base: 150, len: Q::CAP - s.len + 1 };
    drop(q);
    check!(drops() == has(s, w) + has(made, w));
}
/// a consuming iterator owns what it has not given out
pub fn consume<Q: Deq<A = Tok>>() {
    let (q, s, w) = start::<Q>();
    let mut it = q.into_it();
    let (mut f, mut b) = (0, 0);
    for _ in 0..Q::CAP + 1 {
        let back = any_bool();
        if any_bool() { break }
        let v = if back { it.next_back() } else { it.next() };
        match v {
            Some(v) => {
                if back { b += 1; check!(v.0 == s.at(s.len - b)) } else { check!(v.0 == s.at(f)); f += 1; }
            }
            None => check!(f + b == s.len),
        }
    }
    let mid = Seq { base: s.at(f), len: s.len - f - b };
    end!(it, has(s, w) - has(mid, w), has(s, w));
}
/// a draining iterator releases what it has not given out, or leaves it where it was; when it is forgotten, what it
/// had on loan may be lost, but nothing shows that is not there and nothing is released twice
pub fn drain<Q: Deq<A = Tok>>() {
    let (mut q, s, w) = start::<Q>();
    let (mut f, mut b) = (0, 0);
    let lost = any_bool();
    {
        let mut it = q.drain();
        for _ in 0..Q::CAP + 1 {
            let back = any_bool();
            if any_bool() { break }
            let v = if back { it.next_back() } else { it.next() };
            match v {
                Some(v) => {
                    if back { b += 1; check!(v.0 == s.at(s.len - b)) } else { check!(v.0 == s.at(f)); f += 1; }
                }
                None => check!(f + b == s.len),
            }
        }
        if lost { core::mem::forget(it); }
    }
    let mid = Seq { base: s.at(f), len: s.len - f - b };
    let all = has(s, w) - has(mid, w);
    let mut here = 0;
    for k in 0..Q::CAP { if k < q.len() { here += (q.at(k).0 == w) as u8 } }
    check!(here <= has(mid, w) && q.len() <= mid.len);
    if lost {
        let room = q.len() < Q::CAP;
        if room { q.push_back(Tok(200)) }
        end!(q, all, all + here + (room && w == 200) as u8);
        return
    }
    check!(q.len() == 0 || same(&q, mid.len, |j| mid.at(j)));
    end!(q, has(s, w) - here, has(s, w));
}
/// a clone owns its own copies
pub fn clone<Q: Deq<A = Tok> + Clone>() {
    let (q, s) = Q::any(0);
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let c = if any_bool() { q.clone() } else { let (mut c, u) = Q::any(200); ledger().drops = 0; c.clone_from(&q); check!(drops() == has(u, w)); ledger().drops = 0; c };
    let t = Seq { base: s.base + 100, len: s.len };
    check!(same(&c, s.len, |j| t.at(j)));
    check!(same(&q, s.len, |j| s.at(j)));
    if any_bool() { end!(q, 0, has(s, w)); end!(c, has(s, w), has(s, w) + has(t, w)); } else { end!(c, 0, has(t, w)); end!(q, has(t, w), has(s, w) + has(t, w)); }
}
