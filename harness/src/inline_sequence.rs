//! An inline array behaves as a bounded vector.
use crate::build::*;
use crate::ia::*;
use crate::q::*;
use crate::slices::*;
use crate::sym::*;
use crate::*;
use core::borrow::{Borrow, BorrowMut};
use sized_chunks::InlineArray as I;
const FILE: u32 = 1400000;

fn push<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    assume(s.len < I::<A, T>::CAPACITY);
    c.push(A::mk(200));
    check!(is(&c, s.len + 1, |j| if j < s.len { s.at(j) } else { 200 }));
}
fn pop<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let r = c.pop();
    check!(match r { Some(v) => s.len > 0 && v.id() == s.at(s.len - 1), None => s.len == 0 });
    check!(is(&c, if s.len == 0 { 0 } else { s.len - 1 }, |j| s.at(j)));
}
fn insert<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let i = upto(I::<A, T>::CAPACITY);
    assume(s.len < I::<A, T>::CAPACITY && i <= s.len);
    c.insert(i, A::mk(200));
    check!(is(&c, s.len + 1, |j| if j < i { s.at(j) } else if j == i { 200 } else { s.at(j - 1) }));
}
fn remove<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let i = any_usize();
    let r = c.remove(i);
    if i >= s.len { check!(r.is_none()); check!(is(&c, s.len, |j| s.at(j))); }
    else {
        check!(match r { Some(v) => v.id() == s.at(i), None => false });
        check!(is(&c, s.len - 1, |j| if j < i { s.at(j) } else { s.at(j + 1) }));
    }
}
fn split_off<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let i = upto(I::<A, T>::CAPACITY);
    assume(i <= s.len);
    let d = c.split_off(i);
    check!(is(&c, i, |j| s.at(j)));
    check!(is(&d, s.len - i, |j| s.at(i + j)));
}
fn clear<A: Elem, T>() {
    let (mut c, _) = inline::<A, T>(0);
    c.clear();
    check!(is(&c, 0, |_| 0));
    c.push(A::mk(9));
    check!(is(&c, 1, |_| 9));
}
fn look<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let i = any_usize();
    check!(match c.get(i) { Some(v) => i < s.len && v.id() == s.at(i), None => i >= s.len });
    check!(match c.first() { Some(v) => s.len > 0 && v.id() == s.at(0), None => s.len == 0 });
    check!(match c.last() { Some(v) => s.len > 0 && v.id() == s.at(s.len - 1), None => s.len == 0 });
    check!(c.len() == s.len && c.is_empty() == (s.len == 0) && c.is_full() == (s.len == I::<A, T>::CAPACITY));
    if i < s.len {
        check!(c[i].id() == s.at(i));
        let b: &[A] = c.borrow();
        check!(b.len() == s.len && b[i].id() == s.at(i));
        let b: &[A] = c.as_ref();
        check!(b.len() == s.len && b[i].id() == s.at(i));
        match below(5) {
            0 => c[i] = A::mk(200),
            1 => { let b: &mut [A] = c.borrow_mut(); b[i] = A::mk(200) }
            2 => { let b: &mut [A] = c.as_mut(); b[i] = A::mk(200) }
            3 => match c.get_mut(i) { Some(v) => *v = A::mk(200), None => check!(false) },
            _ => { let mut k = 0; for v in &mut c { if k == i { *v = A::mk(200) } k += 1; } check!(k == s.len) }
        }
        check!(is(&c, s.len, |j| if j == i { 200 } else { s.at(j) }));
    }
}
fn ask<A: Elem + PartialEq, T, const N: usize>() { let (mut c, s) = inline::<A, T>(0); assert!(I::<A, T>::CAPACITY == N); slice_ask!(c, s, A, N); check!(is(&c, s.len, |j| s.at(j))); }
fn tell<A: Elem + Copy, T, const N: usize>() { let (mut c, s) = inline::<A, T>(0); assert!(I::<A, T>::CAPACITY == N); macro_rules! same { ($n:expr, $f:expr) => { is(&c, $n, $f) } } slice_tell!(c, s, A, N, same); }
fn iterate<A: Elem, T>() {
    let (c, s) = inline::<A, T>(0);
    let mut k = 0;
    for v in &c { check!(v.id() == s.at(k)); k += 1; }
    check!(k == s.len);
    check!(is(&c, s.len, |j| s.at(j)));
}
/// both ends, any interleaving; the iterator knows what is left
fn owned<A: Elem, T>() {
    let (c, s) = inline::<A, T>(0);
    let mut it = c.into_iter();
    let (mut l, mut r) = (0, s.len);
    for _ in 0..I::<A, T>::CAPACITY + 1 {
        check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
        if any_bool() { match it.next() { Some(v) => { check!(l < r && v.id() == s.at(l)); l += 1 } None => check!(l == r) } }
        else { match it.next_back() { Some(v) => { check!(l < r && v.id() == s.at(r - 1)); r -= 1 } None => check!(l == r) } }
    }
    check!(l == r && it.next().is_none() && it.next_back().is_none());
}
/// skipping ahead, then the rest in one go
fn skips<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let (f, b, back) = (any_bool(), any_bool(), any_bool());
    let n = any_usize();
    let rest = below(4);
    macro_rules! go { ($it:expr) => { {
        let mut it = $it;
        let (mut l, mut r) = (0, s.len);
        if f { match it.next() { Some(v) => { check!(v.id() == s.at(0)); l = 1 } None => check!(r == 0) } }
        if b { match it.next_back() { Some(v) => { check!(l < r && v.id() == s.at(r - 1)); r -= 1 } None => check!(l == r) } }
        let want = if n < r - l { if back { r - 1 - n } else { l + n } } else { usize::MAX };
        let got = if back { it.nth_back(n) } else { it.nth(n) };
        match got { Some(v) => check!(want != usize::MAX && v.id() == s.at(want)), None => check!(want == usize::MAX) }
        if want == usize::MAX { l = r } else if back { r = want } else { l = want + 1 }
        check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
        match rest {
            0 => check!(it.count() == r - l),
            1 => match it.last() { Some(v) => check!(l < r && v.id() == s.at(r - 1)), None => check!(l == r) },
            2 => { let k = it.fold(l, |k, v| { check!(v.id() == s.at(k)); k + 1 }); check!(k == r) }
            _ => { let k = it.rfold(r, |k, v| { check!(k > l && v.id() == s.at(k - 1)); k - 1 }); check!(k == l) }
        }
    } } }
    match below(4) { 0 => go!((&c).into_iter()), 1 => go!((&mut c).into_iter()), 2 => go!(c.into_iter()), _ => go!(c.drain()) }
}
/// a drain takes from either end; what it did not yield stays or goes, but never gets mixed up
fn drain<A: Elem, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let n = upto(I::<A, T>::CAPACITY);
    let (mut l, mut r) = (0, s.len);
    {
        let mut it = c.drain();
        for k in 0..I::<A, T>::CAPACITY { if k < n {
            check!(it.len() == r - l && it.size_hint() == (r - l, Some(r - l)));
            if any_bool() { match it.next() { Some(v) => { check!(l < r && v.id() == s.at(l)); l += 1 } None => check!(l == r) } }
            else { match it.next_back() { Some(v) => { check!(l < r && v.id() == s.at(r - 1)); r -= 1 } None => check!(l == r) } }
        } }
    }
    if l == r { check!(is(&c, 0, |_| 0)); }
    else { check!(c.len() <= r - l); let k = c.len(); check!(is(&c, k, |j| s.at(l + j))); }
    if c.len() < I::<A, T>::CAPACITY { let k = c.len(); c.push(A::mk(9)); check!(c.len() == k + 1 && c[k].id() == 9) }
}
fn collect<A: Elem, T>() {
    let n = upto(I::<A, T>::CAPACITY);
    let c: I<A, T> = blind(src::<A>(50, n)).collect();
    check!(is(&c, n, |j| 50 + j as u8));
    let d: I<A, T> = I::default();
    check!(is(&d, 0, |_| 0));
    let d: I<A, T> = I::new();
    check!(is(&d, 0, |_| 0));
}
fn extend<A: Elem + Copy, T>() {
    let (mut c, s) = inline::<A, T>(0);
    let n = upto(I::<A, T>::CAPACITY);
    assume(s.len + n <= I::<A, T>::CAPACITY);
    if any_bool() { Extend::<A>::extend(&mut c, blind(src::<A>(50, n))); }
    else {
        let d: I<A, T> = src::<A>(50, n).collect();
        Extend::<&A>::extend(&mut c, d.iter());
    }
    check!(is(&c, s.len + n, |j| if j < s.len { s.at(j) } else { 50 + (j - s.len) as u8 }));
}
fn copy<A: Elem + Clone, T>() {
    let (c, s) = inline::<A, T>(0);
    let mut d = if any_bool() { c.clone() } else { let mut d = inline::<A, T>(100).0; d.clone_from(&c); d };
    let f = |j| s.at(j).wrapping_add(A::BIAS);
    check!(is(&d, s.len, f));
    check!(is(&c, s.len, |j| s.at(j)));
    // the two are independent
    let i = below(I::<A, T>::CAPACITY);
    if i < s.len { d[i] = A::mk(200); check!(is(&c, s.len, |j| s.at(j))); check!(is(&d, s.len, |j| if j == i { 200 } else { f(j) })); }
}
/// any K operations in a row
fn history<A: Elem, T, const K: usize>() {
    let cap = I::<A, T>::CAPACITY;
    let mut c: I<A, T> = I::new();
    let mut m = [0u8; 64];
    let mut n = 0;
    for step in 0..K {
        let v = 100 + step as u8;
        let i = below(cap);
        match below(5) {
            0 => if n < cap { c.push(A::mk(v)); m[n] = v; n += 1 },
            1 => { let r = c.pop(); check!(r.is_some() == (n > 0)); if let Some(x) = r { n -= 1; check!(x.id() == m[n]) } }
            2 => if n < cap && i <= n { c.insert(i, A::mk(v)); for k in 0..cap - 1 { let k = cap - 1 - k; if k > i { m[k] = m[k - 1] } } m[i] = v; n += 1 },
            3 => { let r = c.remove(i); check!(r.is_some() == (i < n)); if let Some(x) = r { check!(x.id() == m[i]); for k in 0..cap - 1 { if k >= i { m[k] = m[k + 1] } } n -= 1 } }
            _ => if i <= n { let d = c.split_off(i); check!(is(&d, n - i, |j| m[i + j])); if any_bool() { n = i } else { c = d; for k in 0..cap { let o = k + i; m[k] = if o < cap { m[o] } else { 0 } } n -= i } },
        }
        check!(is(&c, n, |j| m[j]));
    }
}
type U = u64;
harness! {
    q_pin_push_wide40 = || build::pinned((0, 22), (0, 14), push::<u8, [U; 6]>);
    q_pin_push_wide_big15 = || build::pinned((0, 7), (0, 5), push::<Big, [U; 46]>);
    q_pin_pop_wide40 = || build::pinned((0, 22), (0, 14), pop::<u8, [U; 6]>);
    q_pin_pop_wide_big15 = || build::pinned((0, 7), (0, 5), pop::<Big, [U; 46]>);
    q_pin_insert_wide40 = || build::pinned((0, 22), (0, 14), insert::<u8, [U; 6]>);
    q_pin_insert_wide_big15 = || build::pinned((0, 7), (0, 5), insert::<Big, [U; 46]>);
    q_pin_remove_wide40 = || build::pinned((0, 22), (0, 14), remove::<u8, [U; 6]>);
    q_pin_remove_wide_big15 = || build::pinned((0, 7), (0, 5), remove::<Big, [U; 46]>);
    q_pin_split_off_wide40 = || build::pinned((0, 22), (0, 14), split_off::<u8, [U; 6]>);
    q_pin_split_off_wide_big15 = || build::pinned((0, 7), (0, 5), split_off::<Big, [U; 46]>);
    q_pin_clear_wide40 = || build::pinned((0, 22), (0, 14), clear::<u8, [U; 6]>);
    q_pin_clear_wide_big15 = || build::pinned((0, 7), (0, 5), clear::<Big, [U; 46]>);
    q_pin_look_wide40 = || build::pinned((0, 22), (0, 14), look::<u8, [U; 6]>);
    q_pin_look_wide_big15 = || build::pinned((0, 7), (0, 5), look::<Big, [U; 46]>);
    q_pin_iterate_wide40 = || build::pinned((0, 22), (0, 14), iterate::<u8, [U; 6]>);
    q_pin_iterate_wide_big15 = || build::pinned((0, 7), (0, 5), iterate::<Big, [U; 46]>);
    q_pin_owned_wide16 = || build::pinned((0, 9), (0, 6), owned::<u8, [U; 3]>);
    q_pin_owned_wide_big15 = || build::pinned((0, 7), (0, 5), owned::<Big, [U; 46]>);
    q_pin_skips_wide16 = || build::pinned((0, 9), (0, 6), skips::<u8, [U; 3]>);
    q_pin_drain_wide16 = || build::pinned((0, 9), (0, 6), drain::<u8, [U; 3]>);
    q_pin_drain_wide_big15 = || build::pinned((0, 7), (0, 5), drain::<Big, [U; 46]>);
    q_pin_collect_wide40 = || build::pinned((0, 22), (0, 14), collect::<u8, [U; 6]>);
    q_pin_collect_wide_big15 = || build::pinned((0, 7), (0, 5), collect::<Big, [U; 46]>);
    q_pin_extend_wide40 = || build::pinned((0, 22), (0, 14), extend::<u8, [U; 6]>);
    q_pin_extend_wide_big15 = || build::pinned((0, 7), (0, 5), extend::<Big, [U; 46]>);
    q_pin_copy_wide40 = || build::pinned((0, 22), (0, 14), copy::<u8, [U; 6]>);
    q_pin_copy_wide_big15 = || build::pinned((0, 7), (0, 5), copy::<Big, [U; 46]>);
    q_push8 = push::<u8, [U; 2]>;
    q_push4 = push::<u32, [U; 3]>;
    q_push3 = push::<Big, [U; 10]>;
    q_push2 = push::<Al16, [Al16; 3]>;
    q_push_tight4 = push::<u8, [u8; 12]>;
    q_pop8 = pop::<u8, [U; 2]>;
    q_pop4 = pop::<u32, [U; 3]>;
    q_pop2 = pop::<Al16, [Al16; 3]>;
    q_insert8 = insert::<u8, [U; 2]>;
    q_insert16 = insert::<u8, [U; 3]>;
    q_insert4 = insert::<u32, [U; 3]>;
    q_insert3 = insert::<Big, [U; 10]>;
    q_insert2 = insert::<Al16, [Al16; 3]>;
    q_remove8 = remove::<u8, [U; 2]>;
    q_remove16 = remove::<u8, [U; 3]>;
    q_remove4 = remove::<u32, [U; 3]>;
    q_remove3 = remove::<Big, [U; 10]>;
    q_remove2 = remove::<Al16, [Al16; 3]>;
    q_split_off8 = split_off::<u8, [U; 2]>;
    q_split_off4 = split_off::<u32, [U; 3]>;
    q_split_off3 = split_off::<Al16, [Al16; 4]>;
    q_clear4 = clear::<u32, [U; 3]>;
    q_ask4 = ask::<u32, [U; 3], 4>;
    q_tell4 = tell::<u32, [U; 3], 4>;
    q_tell8 = tell::<u8, [U; 2], 8>;
    q_look4 = look::<u32, [U; 3]>;
    q_look8 = look::<u8, [U; 2]>;
    q_look2 = look::<Al16, [Al16; 3]>;
    q_iterate8 = iterate::<u8, [U; 2]>;
    q_iterate3 = iterate::<Al16, [Al16; 4]>;
    q_owned4 = owned::<u32, [U; 3]>;
    q_owned2 = owned::<Al16, [Al16; 3]>;
    q_drain4 = drain::<u32, [U; 3]>;
    q_skips4 = skips::<u32, [U; 3]>;
    q_skips2 = skips::<Al16, [Al16; 3]>;
    q_drain2 = drain::<Al16, [Al16; 3]>;
    q_collect4 = collect::<u32, [U; 3]>;
    q_collect8 = collect::<u8, [U; 2]>;
    q_extend4 = extend::<u32, [U; 3]>;
    q_extend8 = extend::<u8, [U; 2]>;
    q_extend2 = extend::<Al16, [Al16; 3]>;
    q_copy4 = copy::<u32, [U; 3]>;
    q_copy15 = copy::<Cl, [U; 2]>;
    q_copy8 = copy::<u8, [U; 2]>;
    q_copy2 = copy::<Al16, [Al16; 3]>;
    q_wide316 = wide::inline::<[U; 80]>;
    q_history4 = history::<u32, [U; 3], 3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_push48 = push::<u8, [U; 7]>;
    t_insert48 = insert::<u8, [U; 7]>;
    t_remove48 = remove::<u8, [U; 7]>;
    t_split_off48 = split_off::<u8, [U; 7]>;
    t_insert_wide6 = insert::<u64, [U; 7]>;
    t_remove_wide6 = remove::<u64, [U; 7]>;
    t_owned8 = owned::<u8, [U; 2]>;
    t_drain8 = drain::<u8, [U; 2]>;
    t_skips8 = skips::<u8, [U; 2]>;
    t_history_five4 = history::<u32, [U; 3], 5>;
    t_history_four8 = history::<u8, [U; 2], 4>;
    t_history_al2 = history::<Al16, [Al16; 3], 5>;
} }
