//! Searching and sorting a ring buffer (or part of one) ends like searching and sorting the plain sequence.
use crate::build::*;
use crate::sym::*;
use crate::*;
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::RingBuffer;
const FILE: u32 = 1000000;

/// any layout, any contents
#[inline(always)]
fn any<const N: usize>() -> (RingBuffer<u8, N>, [u8; N], usize) {
    let (mut q, s) = ring::<u8, N>();
    let mut v = [0; N];
    for k in 0..N { v[k] = any_u8(); if k < s.len { q[k] = v[k] } }
    (q, v, s.len)
}
#[inline(always)]
fn range<const N: usize>(n: usize) -> (usize, usize) { let (x, y) = (upto(N), upto(N)); assume(x <= y && y <= n); (x, y) }
/// asks the buffer itself, a view of it, or a mutable view of it
macro_rules! ask { ($q:ident, $n:expr, $x:expr, $y:expr, $f:ident($($a:expr),*)) => { match below(3) {
    0 => { assume($x == 0 && $y == $n); Array::$f(&$q, $($a),*) }
    1 => Array::$f(&$q.slice($x..$y), $($a),*),
    _ => Array::$f(&$q.slice_mut($x..$y), $($a),*),
} } }
fn contains<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    let t = any_u8();
    let mut w = false;
    for k in 0..N { if k >= x && k < y && v[k] == t { w = true } }
    check!(ask!(q, n, x, y, contains(&t)) == w);
}
fn search<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    for k in 1..N { assume(k >= y || k <= x || v[k - 1] <= v[k]); }
    let t = any_u8();
    let r = match below(3) { 0 => ask!(q, n, x, y, binary_search(&t)), 1 => ask!(q, n, x, y, binary_search_by(|v| v.cmp(&t))), _ => ask!(q, n, x, y, binary_search_by_key(&(t as u16 * 2), |v| *v as u16 * 2)) };
    match r {
        Ok(i) => check!(i < y - x && v[x + i] == t),
        Err(i) => {
            check!(i <= y - x);
            for k in 0..N { if k >= x && k < y { check!(if k < x + i { v[k] < t } else { v[k] > t }); } }
        }
    }
}
fn sorted<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    let mut w = true;
    for k in 1..N { if k < y && k > x && v[k - 1] > v[k] { w = false } }
    check!(w == match below(3) { 0 => ask!(q, n, x, y, is_sorted()), 1 => ask!(q, n, x, y, is_sorted_by(|a, b| Some(a.cmp(b)))), _ => ask!(q, n, x, y, is_sorted_by_key(|v| *v as u16 * 2)) });
}
fn affix<const N: usize, const K: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    let m = upto(K);
    let mut t = [0; K];
    for k in 0..K { t[k] = any_u8(); }
    let (mut a, mut b) = (m <= y - x, m <= y - x);
    for k in 0..K { if k < m && m <= y - x { a &= v[x + k] == t[k]; b &= v[y - m + k] == t[k]; } }
    check!(ask!(q, n, x, y, starts_with(&t[..m])) == a);
    check!(ask!(q, n, x, y, ends_with(&t[..m])) == b);
}
fn sort<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    assume(x < y);
    let t = any_u8();
    let (mut before, mut after) = (0, 0);
    for k in 0..N { if k >= x && k < y && v[k] == t { before += 1 } }
    if x == 0 && y == n && any_bool() { q.sort_unstable() } else { q.slice_mut(x..y).sort_unstable() }
    check!(q.len() == n);
    for k in 0..N {
        if k < n {
            if k < x || k >= y { check!(q[k] == v[k]) } else { if q[k] == t { after += 1 } if k > x { check!(q[k - 1] <= q[k]) } }
        }
    }
    check!(before == after);
}
/// by a comparison of the caller's, and by a key: here, descending
fn sort_by<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    let (x, y) = range::<N>(n);
    assume(x < y);
    let t = any_u8();
    let (mut before, mut after) = (0, 0);
    for k in 0..N { if k >= x && k < y && v[k] == t { before += 1 } }
    match below(4) {
        0 => q.slice_mut(x..y).sort_unstable_by(|a, b| b.cmp(a)),
        1 => q.slice_mut(x..y).sort_unstable_by_key(|a| 255 - *a),
        2 => { assume(x == 0 && y == n); q.sort_unstable_by(|a, b| b.cmp(a)) }
        _ => { assume(x == 0 && y == n); q.sort_unstable_by_key(|a| 255 - *a) }
    }
    check!(q.len() == n);
    for k in 0..N {
        if k < n {
            if k < x || k >= y { check!(q[k] == v[k]) } else { if q[k] == t { after += 1 } if k > x { check!(q[k - 1] >= q[k]) } }
        }
    }
    check!(before == after);
}
fn insert_ordered<const N: usize>() {
    let (mut q, v, n) = any::<N>();
    for k in 1..N { assume(k >= n || v[k - 1] <= v[k]); }
    assume(n < N);
    let t = any_u8();
    q.insert_ordered(t);
    check!(q.len() == n + 1);
    let mut le = 0;
    for k in 0..N { if k < n && v[k] <= t { le += 1 } }
    // sorted, and the old contents plus t (between equals the place does not matter)
    for k in 0..N { if k <= n { check!(q[k] == if k < le { v[k] } else if k == le { t } else { v[k - 1] }) } }
}
harness! {
    q_pin_contains_wide17 = || build::pinned((14, 9), (13, 6), contains::<17>);
    q_pin_affix_wide17 = || build::pinned((14, 9), (13, 6), affix::<17, 3>);
    q_pin_insert_ordered_wide17 = || build::pinned((14, 9), (13, 6), insert_ordered::<17>);
    q_wide_ordered100 = wide::r::ordered::<100, 83, 60>;
    q_contains3 = contains::<3>;
    q_contains6 = contains::<6>;
    q_search4 = search::<4>;
    q_search7 = search::<7>;
    q_sorted4 = sorted::<4>;
    q_sorted7 = sorted::<7>;
    q_affix4 = affix::<4, 3>;
    q_sort2 = sort::<2>;
    q_sort_by2 = sort_by::<2>;
    q_sort_by3 = sort_by::<3>;
    q_sort3 = sort::<3>;
    q_insert_ordered4 = insert_ordered::<4>;
    q_insert_ordered7 = insert_ordered::<7>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_contains16 = contains::<16>;
    t_search16 = search::<16>;
    t_affix8 = affix::<8, 5>;
    t_sort4 = sort::<4>;
    t_insert_ordered16 = insert_ordered::<16>;
} }
