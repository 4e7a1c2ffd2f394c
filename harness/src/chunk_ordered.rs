//! Inserting into a sorted chunk keeps it sorted and adds exactly the one value; where the order
//! is a weak one, the value lands among its equals and nothing else moves relative to the rest.
use crate::build::*;
use crate::sym::*;
use crate::*;
use core::cmp::Ordering;
use sized_chunks::Chunk;
const FILE: u32 = 2400000;

#[inline(always)]
fn any<const N: usize>() -> (Chunk<u8, N>, [u8; N], usize) {
    let (mut q, s) = chunk::<u8, N>();
    let mut v = [0; N];
    for k in 0..N { v[k] = any_u8(); if k < s.len { q[k] = v[k] } }
    for k in 1..N { assume(k >= s.len || v[k - 1] <= v[k]); }
    (q, v, s.len)
}
fn insert<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    assume(n < N);
    let t = any_u8();
    q.insert_ordered(t);
    check!(q.len() == n + 1);
    let mut le = 0;
    for k in 0..N { if k < n && v[k] <= t { le += 1 } }
    for k in 0..N { if k <= n { check!(q[k] == if k < le { v[k] } else if k == le { t } else { v[k - 1] }) } }
}
/// elements that compare by their high nibble only
#[derive(Clone, Copy)]
struct Hi(u8);
impl PartialEq for Hi { fn eq(&self, o: &Hi) -> bool { self.0 >> 4 == o.0 >> 4 } }
impl Eq for Hi {}
impl PartialOrd for Hi { fn partial_cmp(&self, o: &Hi) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Hi { fn cmp(&self, o: &Hi) -> Ordering { (self.0 >> 4).cmp(&(o.0 >> 4)) } }
impl Elem for Hi { #[inline(always)] fn mk(v: u8) -> Hi { Hi(v) } #[inline(always)] fn id(&self) -> u8 { self.0 } }
fn among_equals<const N: usize>() {
    let (mut q, s) = chunk::<Hi, N>();
    let mut v = [0; N];
    for k in 0..N { v[k] = any_u8(); if k < s.len { q[k] = Hi(v[k]) } }
    let n = s.len;
    for k in 1..N { assume(k >= n || v[k - 1] >> 4 <= v[k] >> 4); }
    assume(n < N);
    let t = any_u8();
    q.insert_ordered(Hi(t));
    check!(q.len() == n + 1);
    for k in 1..N { check!(k > n || q[k - 1].0 >> 4 <= q[k].0 >> 4); }
    // some position holds t, and without it the old contents are there in their order
    let mut found = false;
    for p in 0..N {
        if p <= n {
            let mut fit = q[p].0 == t;
            for k in 0..N { if k <= n && k != p { fit &= q[k].0 == if k < p { v[k] } else { v[k - 1] } } }
            found |= fit;
        }
    }
    check!(found);
}
/// the contents are in no order, or compare as they please: the value still goes in once and nothing is lost
fn unsorted<const N: usize>() {
    let (mut q, s) = chunk::<u8, N>();
    let mut v = [0; N];
    for k in 0..N { v[k] = any_u8(); if k < s.len { q[k] = v[k] } }
    let n = s.len;
    assume(n < N);
    let t = any_u8();
    q.insert_ordered(t);
    check!(q.len() == n + 1);
    let mut found = false;
    for p in 0..N {
        if p <= n {
            let mut fit = q[p] == t;
            for k in 0..N { if k <= n && k != p { fit &= q[k] == if k < p { v[k] } else { v[k - 1] } } }
            found |= fit;
        }
    }
    check!(found);
}
fn search<const N: usize>() {
    let (q, v, n) = any::<N>();
    let t = any_u8();
    match q.binary_search(&t) {
        Ok(i) => check!(i < n && v[i] == t),
        Err(i) => { check!(i <= n); for k in 0..N { if k < n { check!(if k < i { v[k] < t } else { v[k] > t }) } } }
    }
}
/// many elements, at known steps from each other: a value anywhere before, between, at and behind them
fn spread<const N: usize, const STEP: u8>() {
    let (mut q, s) = chunk::<u8, N>();
    let n = s.len;
    assume(n < N);
    for k in 0..n { q[k] = k as u8 * STEP + 1 }
    let t = any_u8();
    q.insert_ordered(t);
    check!(q.len() == n + 1);
    let j = below(N);
    assume(j <= n);
    let le = if t == 0 { 0 } else { (t - 1) as usize / STEP as usize + 1 };
    let le = if le > n { n } else { le };
    check!(q[j] == if j < le { j as u8 * STEP + 1 } else if j == le { t } else { (j - 1) as u8 * STEP + 1 });
}
/// full: refused, nothing changed
fn full<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    assume(n == N);
    let t = any_u8();
    check!(panics(|| q.insert_ordered(t)));
    check!(q.len() == N);
    for k in 0..N { check!(q[k] == v[k]) }
}
harness! {
    q_pin_insert_wide40 = || build::pinned((9, 22), (3, 14), insert::<40>);
    q_pin_insert_wide40b = || build::pinned((25, 15), (28, 12), insert::<40>);
    q_pin_spread_wide40 = || build::pinned((9, 22), (3, 14), spread::<40, 9>);
    q_pin_spread_wide40b = || build::pinned((25, 15), (28, 12), spread::<40, 9>);
    q_pin_search_wide40 = || build::pinned((9, 22), (3, 14), search::<40>);
    q_pin_search_wide40b = || build::pinned((25, 15), (28, 12), search::<40>);
    q_pin_full_wide40 = || build::pinned((0, 40), (0, 40), full::<40>);
    q_wide_ordered100 = wide::c::ordered::<100, 13, 60>;
    q_insert1 = insert::<1>;
    q_insert2 = insert::<2>;
    q_insert4 = insert::<4>;
    q_insert12 = insert::<12>;
    q_spread16 = spread::<16, 9>;
    q_spread32 = spread::<32, 7>;
    q_insert7 = insert::<7>;
    q_among_equals4 = among_equals::<4>;
    q_unsorted4 = unsorted::<4>;
    q_search6 = search::<6>;
    q_full4 = full::<4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_insert12 = insert::<12>;
    t_insert16 = insert::<16>;
    t_among_equals8 = among_equals::<8>;
    t_unsorted8 = unsorted::<8>;
    t_spread64 = spread::<64, 3>;
    t_search16 = search::<16>;
    t_full8 = full::<8>;
} }
