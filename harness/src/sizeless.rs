//! Elements without a size: lengths, orders and releases are what they are for any other element.
use crate::build::*;
use crate::q::*;
use crate::sp::Map;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::*;
const FILE: u32 = 3100000;

/// nothing but a destructor
pub struct Z;
static mut GONE: usize = 0;
fn gone() -> usize { unsafe { GONE } }
fn zero() { unsafe { GONE = 0 } }
impl Drop for Z { fn drop(&mut self) { unsafe { GONE += 1 } } }
impl Clone for Z { fn clone(&self) -> Z { burn(); Z } }
impl PartialEq for Z { fn eq(&self, _: &Z) -> bool { true } }
impl Elem for Z { #[inline(always)] fn mk(_: u8) -> Z { Z } #[inline(always)] fn id(&self) -> u8 { 7 } }
/// and a plain one
impl Elem for () { #[inline(always)] fn mk(_: u8) {} #[inline(always)] fn id(&self) -> u8 { 7 } }

#[inline(always)]
fn holds<Q: Deq>(q: &Q, n: usize) -> bool { crate::seq::ok(q, n, |_| 7) }
/// one operation on any layout: the length and the number of elements released so far
fn one<Q: Deq<A = Z>>() {
    let (mut q, s) = Q::any(0);
    let (mut o, t) = Q::any(100);
    zero();
    let (i, n) = (upto(Q::CAP), upto(Q::CAP));
    let mut len = s.len;
    let mut rest = t.len;
    let mut gon = 0;
    match below(18) {
        0 => { assume(len < Q::CAP); q.push_back(Z); len += 1 }
        1 => { assume(len < Q::CAP); q.push_front(Z); len += 1 }
        2 => { assume(len > 0); check!(q.pop_back().is_some()); len -= 1; gon = 1 }
        3 => { assume(len > 0); check!(q.pop_front().is_some()); len -= 1; gon = 1 }
        4 => { assume(len < Q::CAP && i <= len); q.insert(i, Z); len += 1 }
        5 => { assume(i < len); let z = q.remove(i); check!(gone() == 0); drop(z); len -= 1; gon = 1 }
        6 => { assume(i < len); let z = q.set(i, Z); check!(gone() == 0); drop(z); gon = 1 }
        7 => { assume(i <= len); q.drop_left(i); len -= i; gon = i }
        8 => { assume(i <= len); q.drop_right(i); gon = len - i; len = i }
        9 => { assume(i <= len); let r = q.split_off(i); check!(holds(&r, len - i) && gone() == 0); drop(r); gon = len - i; len = i }
        10 => { assume(len + rest <= Q::CAP); q.append(&mut o); len += rest; rest = 0 }
        11 => { assume(n <= rest && len + n <= Q::CAP); q.drain_from_front(&mut o, n); len += n; rest -= n }
        12 => { assume(n <= rest && len + n <= Q::CAP); q.drain_from_back(&mut o, n); len += n; rest -= n }
        13 => { assume(i <= len && len + n <= Q::CAP); q.insert_from(i, src::<Z>(0, n)); len += n }
        14 => { assume(len + n <= Q::CAP); q.extend(src::<Z>(0, n)); len += n }
        15 => { q.clear(); gon = len; len = 0 }
        16 => { let mut d = q.drain(); for k in 0..Q::CAP { if k < n { let _ = if any_bool() { d.next() } else { d.next_back() }; } } drop(d); check!(q.len() + if n < len { n } else { len } <= len); gon = len - q.len(); len = q.len() }
        _ => { assume(n <= rest); let r = if any_bool() { Q::from_front(&mut o, n) } else { Q::from_back(&mut o, n) }; check!(holds(&r, n) && gone() == 0); drop(r); rest -= n; gon = n }
    }
    check!(gone() == gon);
    check!(holds(&q, len) && holds(&o, rest));
    drop(q);
    check!(gone() == gon + len);
    drop(o);
    check!(gone() == gon + len + rest);
}
fn walk<Q: Deq<A = Z>>() {
    let (mut q, s) = Q::any(0);
    zero();
    let mut n = 0;
    { let mut it = q.iter(); check!(it.len() == s.len); for _ in 0..Q::CAP { if if any_bool() { it.next() } else { it.next_back() }.is_some() { n += 1 } } check!(n == s.len && it.len() == 0 && it.next().is_none() && it.next_back().is_none()); }
    n = 0;
    { let mut it = q.iter_mut(); for _ in 0..Q::CAP { if if any_bool() { it.next() } else { it.next_back() }.is_some() { n += 1 } } check!(n == s.len && it.next().is_none()); }
    check!(gone() == 0);
    let mut it = q.into_it();
    let k = upto(Q::CAP);
    for j in 0..Q::CAP { if j < k { check!(if any_bool() { it.next() } else { it.next_back() }.is_some() == (j < s.len)); } }
    check!(gone() == if k < s.len { k } else { s.len });
    drop(it);
    check!(gone() == s.len);
}
fn copies<Q: Deq<A = Z> + Clone + PartialEq>() {
    let (q, s) = Q::any(0);
    let (o, t) = Q::any(0);
    zero();
    check!((q == o) == (s.len == t.len));
    let n = upto(Q::CAP);
    light(n as u8);
    let mut c = None;
    let p = panics(|| c = Some(q.clone()));
    unlight();
    check!(p == (n < s.len) && c.is_none() == p);
    check!(gone() <= if p { n } else { 0 });
    let g = gone();
    if let Some(c) = c { check!(holds(&c, s.len)); drop(c); check!(gone() == g + s.len) }
    let g = gone();
    drop(q);
    check!(gone() == g + s.len);
}
/// the iterator being read panics: what it gave is in there or released, nothing else is
fn cut_short<Q: Deq<A = Z>>() {
    let (mut q, s) = Q::any(0);
    zero();
    let (i, n, k) = (upto(Q::CAP), upto(Q::CAP), upto(Q::CAP));
    assume(s.len + n <= Q::CAP && i <= s.len);
    light(k as u8);
    let how = below(3);
    let mut made = 0;
    let p = panics(|| match how { 0 => drop(Q::from_iter(src::<Z>(0, n).inspect(|_| made += 1))), 1 => q.extend(src::<Z>(0, n).inspect(|_| made += 1)), _ => q.extend(blind(src::<Z>(0, n)).inspect(|_| made += 1)) });
    unlight();
    cover!(p && made > 0);
    if how == 0 { check!(gone() == made && holds(&q, s.len)) } else { check!(gone() == 0 && holds(&q, s.len + made)) }
    drop(q);
    check!(gone() == s.len + made);
}
fn inline_cut_short<const D: usize>() {
    type I = InlineArray<Z, [u64; 3]>;
    let (m, n, k) = (upto(D), upto(D), upto(D));
    let mut c = I::new();
    for j in 0..D { if j < m { c.push(Z) } }
    zero();
    light(k as u8);
    let how = any_bool();
    let mut made = 0;
    let p = panics(|| if how { c.extend(src::<Z>(0, n).inspect(|_| made += 1)) } else { drop(src::<Z>(0, n).inspect(|_| made += 1).collect::<I>()) });
    unlight();
    cover!(p && made > 0);
    if how { check!(gone() == 0 && c.len() == m + made) } else { check!(gone() == made && c.len() == m) }
    drop(c);
    check!(gone() == m + made);
}
fn sparse<const N: usize>() where BitsImpl<N>: Bits {
    let mut c: SparseChunk<Z, N> = SparseChunk::new();
    let mut m = Map { base: 0, m: 0 };
    for i in 0..N { if any_bool() { c.insert(i, Z); m = m.with(i) } }
    zero();
    let i = below(N);
    let mut gon = 0;
    match below(5) {
        0 => { let r = c.insert(i, Z); check!(r.is_some() == m.has(i) && gone() == 0); drop(r); gon = m.has(i) as usize; m = m.with(i) }
        1 => { let r = c.remove(i); check!(r.is_some() == m.has(i) && gone() == 0); drop(r); gon = m.has(i) as usize; m = m.without(i) }
        2 => { let r = c.pop(); let f = m.nth(N, 0); check!(r.is_some() == f.is_some() && gone() == 0); drop(r); if let Some(f) = f { gon = 1; m = m.without(f) } }
        3 => { let k = c.clone(); check!(k == c && gone() == 0); drop(k); gon = m.count(N) }
        _ => { assume(m.has(i)); c[i] = Z; gon = 1 }
    }
    check!(gone() == gon && c.len() == m.count(N) && c.get(i).is_some() == m.has(i));
    let mut n = 0;
    for (k, _) in c.entries() { check!(m.has(k)); n += 1 }
    check!(n == m.count(N));
    if any_bool() {
        let mut it = c.into_iter();
        let k = upto(N);
        let mut took = 0;
        for j in 0..N { if j < k && it.next().is_some() { took += 1 } }
        check!(gone() == gon + took && took == if k < n { k } else { n });
        drop(it);
    } else { drop(c) }
    check!(gone() == gon + n);
}
/// any number of elements fits
fn inline<const D: usize>() {
    type I = InlineArray<Z, [u64; 3]>;
    let mut c = I::new();
    check!(I::CAPACITY >= 1 << 60 && c.is_empty() && !c.is_full());
    let len = upto(D);
    for k in 0..D { if k < len { c.push(Z) } }
    zero();
    let i = upto(D);
    let (mut n, mut gon) = (len, 0);
    check!(c.get(i).is_some() == (i < len) && c.first().is_some() == (len > 0));
    match below(10) {
        0 => { let r = c.pop(); check!(r.is_some() == (len > 0)); drop(r); if len > 0 { n -= 1; gon = 1 } }
        1 => { assume(i <= len); c.insert(i, Z); n += 1 }
        2 => { let r = c.remove(i); check!(r.is_some() == (i < len) && gone() == 0); drop(r); if i < len { n -= 1; gon = 1 } }
        3 => { assume(i <= len); let r = c.split_off(i); check!(r.len() == len - i && gone() == 0); drop(r); gon = len - i; n = i }
        4 => { c.clear(); gon = len; n = 0 }
        5 => { let mut d = c.drain(); for k in 0..D { if k < i { check!(if any_bool() { d.next() } else { d.next_back() }.is_some() == (k < len)) } } drop(d); n = c.len(); check!(n + if i < len { i } else { len } <= len); gon = len - n }
        6 => { let k = c.clone(); check!(k.len() == len && k == c && gone() == 0); drop(k); gon = len }
        7 => { let mut it = c.into_iter(); for k in 0..D { if k < i { check!(it.next().is_some() == (k < len)) } } check!(gone() == if i < len { i } else { len }); drop(it); check!(gone() == len); return }
        8 => { c.extend(core::iter::once(Z)); n += 1 }
        _ => { check!(c.iter().count() == len); let mut k = 0; for _ in c.iter_mut() { k += 1 } check!(k == len) }
    }
    check!(gone() == gon && c.len() == n && c.is_empty() == (n == 0) && c.iter().len() == n);
    drop(c);
    check!(gone() == gon + n);
}
harness! {
    q_pin_c_one_wide40 = || build::pinned((9, 22), (3, 14), one::<Chunk<Z, 40>>);
    q_pin_c_one_wide40b = || build::pinned((25, 15), (28, 12), one::<Chunk<Z, 40>>);
    q_pin_c_walk_wide40 = || build::pinned((9, 22), (3, 14), walk::<Chunk<Z, 40>>);
    q_pin_c_walk_wide40b = || build::pinned((25, 15), (28, 12), walk::<Chunk<Z, 40>>);
    q_pin_c_copies_wide40 = || build::pinned((9, 22), (3, 14), copies::<Chunk<Z, 40>>);
    q_pin_c_copies_wide40b = || build::pinned((25, 15), (28, 12), copies::<Chunk<Z, 40>>);
    q_pin_c_cut_short_wide40 = || build::pinned((9, 22), (3, 14), cut_short::<Chunk<Z, 40>>);
    q_pin_c_cut_short_wide40b = || build::pinned((25, 15), (28, 12), cut_short::<Chunk<Z, 40>>);
    q_pin_r_cut_short_wide40 = || build::pinned((33, 22), (30, 14), cut_short::<RingBuffer<Z, 40>>);
    q_pin_r_cut_short_wide40b = || build::pinned((5, 30), (38, 10), cut_short::<RingBuffer<Z, 40>>);
    q_pin_i_cut_short_wide40 = || build::pinned((9, 22), (3, 14), inline_cut_short::<40>);
    q_pin_i_cut_short_wide40b = || build::pinned((25, 15), (28, 12), inline_cut_short::<40>);
    q_pin_r_one_wide40 = || build::pinned((33, 22), (30, 14), one::<RingBuffer<Z, 40>>);
    q_pin_r_one_wide40b = || build::pinned((5, 30), (38, 10), one::<RingBuffer<Z, 40>>);
    q_pin_r_walk_wide40 = || build::pinned((33, 22), (30, 14), walk::<RingBuffer<Z, 40>>);
    q_pin_r_walk_wide40b = || build::pinned((5, 30), (38, 10), walk::<RingBuffer<Z, 40>>);
    q_pin_r_copies_wide40 = || build::pinned((33, 22), (30, 14), copies::<RingBuffer<Z, 40>>);
    q_pin_r_copies_wide40b = || build::pinned((5, 30), (38, 10), copies::<RingBuffer<Z, 40>>);
    q_c_one3 = one::<Chunk<Z, 3>>;
    q_c_walk4 = walk::<Chunk<Z, 4>>;
    q_c_copies3 = copies::<Chunk<Z, 3>>;
    q_c_cut_short3 = cut_short::<Chunk<Z, 3>>;
    q_r_cut_short3 = cut_short::<RingBuffer<Z, 3>>;
    q_i_cut_short3 = inline_cut_short::<3>;
    q_c_view3 = || { let (mut c, s) = chunk::<(), 3>(); check!(c.as_slice().len() == s.len && c.as_mut_slice().len() == s.len && c.get(any_usize()).is_some() <= (s.len > 0)); };
    q_r_one3 = one::<RingBuffer<Z, 3>>;
    q_r_walk4 = walk::<RingBuffer<Z, 4>>;
    q_r_copies3 = copies::<RingBuffer<Z, 3>>;
    q_s_sparse4 = sparse::<4>;
    q_i_inline3 = inline::<3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_c_one6 = one::<Chunk<Z, 6>>;
    t_c_walk8 = walk::<Chunk<Z, 8>>;
    t_r_one5 = one::<RingBuffer<Z, 5>>;
    t_r_walk8 = walk::<RingBuffer<Z, 8>>;
    t_s_sparse8 = sparse::<8>;
    t_i_inline6 = inline::<6>;
} }
