//! An inline array refuses what it cannot do, unchanged, and releases every
//! element exactly once, also when a callback panics.
use crate::build::*;
use crate::ia::*;
use crate::q::*;
use crate::own::has;
use crate::sym::*;
use crate::*;
use sized_chunks::InlineArray as I;
const FILE: u32 = 1600000;
macro_rules! end { ($q:expr, $before:expr, $after:expr) => { check!(drops() == $before); drop($q); check!(drops() == $after); } }
const fn cap<T>() -> usize { I::<Tok, T>::CAPACITY }
fn start<T>() -> (I<Tok, T>, Seq, u8) { let (c, s) = inline::<Tok, T>(0); let w = any_u8(); watch(w); (c, s, w) }

// ------------------------------------------------------------------ ownership
fn just_drop<T>() { let (c, s, w) = start::<T>(); end!(c, 0, has(s, w)); }
fn push_pop<T>() {
    let (mut c, s, w) = start::<T>();
    if any_bool() { assume(s.len < cap::<T>()); c.push(Tok(200)); end!(c, 0, has(s, w) + (w == 200) as u8); }
    else { let r = c.pop(); check!(drops() == 0); drop(r); end!(c, (s.len > 0 && w == s.at(s.len - 1)) as u8, has(s, w)); }
}
fn insert_remove<T>() {
    let (mut c, s, w) = start::<T>();
    let i = upto(cap::<T>());
    if any_bool() { assume(s.len < cap::<T>() && i <= s.len); c.insert(i, Tok(200)); end!(c, 0, has(s, w) + (w == 200) as u8); }
    else { let r = c.remove(i); check!(drops() == 0); drop(r); end!(c, (i < s.len && w == s.at(i)) as u8, has(s, w)); }
}
fn split_off<T>() {
    let (mut c, s, w) = start::<T>();
    let i = upto(cap::<T>());
    assume(i <= s.len);
    let d = c.split_off(i);
    check!(drops() == 0);
    let (l, r) = (Seq { base: 0, len: i }, Seq { base: i as u8, len: s.len - i });
    if any_bool() { drop(c); end!(d, has(l, w), has(s, w)); } else { drop(d); end!(c, has(r, w), has(s, w)); }
}
fn clear<T>() { let (mut c, s, w) = start::<T>(); c.clear(); end!(c, has(s, w), has(s, w)); }
fn iterators<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>());
    let (mut l, mut r) = (0, s.len);
    macro_rules! step { ($it:expr) => { for k in 0..cap::<T>() { if k < n { let b = any_bool(); match if b { $it.next() } else { $it.next_back() } { Some(v) => { check!(v.0 == if b { s.at(l) } else { s.at(r - 1) }); if b { l += 1 } else { r -= 1 } core::mem::forget(v) } None => check!(l == r) } } } } }
    if any_bool() { let mut it = c.into_iter(); step!(it); check!(drops() == 0); drop(it); check!(drops() == has(Seq { base: s.at(l), len: r - l }, w)); }
    else { { let mut it = c.drain(); step!(it); check!(drops() == 0); } let k = c.len(); check!(drops() + has(Seq { base: s.at(l), len: k }, w) == has(Seq { base: s.at(l), len: r - l }, w)); drop(c); check!(drops() == has(Seq { base: s.at(l), len: r - l }, w)); }
}
/// a forgotten draining iterator may lose what it had on loan, and nothing more
fn drain_forgotten<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>());
    let (mut l, mut r) = (0, s.len);
    let mut it = c.drain();
    for k in 0..cap::<T>() { if k < n { let b = any_bool(); match if b { it.next() } else { it.next_back() } { Some(v) => { check!(v.0 == if b { s.at(l) } else { s.at(r - 1) }); if b { l += 1 } else { r -= 1 } } None => check!(l == r) } } }
    core::mem::forget(it);
    let mid = Seq { base: s.at(l), len: r - l };
    let all = has(s, w) - has(mid, w);
    let mut here = 0;
    for k in 0..cap::<T>() { if k < c.len() { here += (c[k].0 == w) as u8 } }
    check!(here <= has(mid, w) && c.len() <= mid.len);
    let room = c.len() < cap::<T>();
    if room { c.push(Tok(200)) }
    end!(c, all, all + here + (room && w == 200) as u8);
}
fn clone<T>() {
    let (c, s, w) = start::<T>();
    ledger().clone_bias = 100;
    let d = if any_bool() { c.clone() } else { let (mut d, u) = inline::<Tok, T>(200); ledger().drops = 0; d.clone_from(&c); check!(drops() == has(u, w)); ledger().drops = 0; d };
    check!(is(&d, s.len, |j| s.at(j) + 100) && is(&c, s.len, |j| s.at(j)));
    let n = Seq { base: 100, len: s.len };
    if any_bool() { end!(c, 0, has(s, w)); end!(d, has(s, w), has(s, w) + has(n, w)); } else { end!(d, 0, has(n, w)); end!(c, has(n, w), has(s, w) + has(n, w)); }
}
fn overwrite<T>() {
    let (mut c, s, w) = start::<T>();
    let i = upto(cap::<T>());
    assume(i < s.len);
    c[i] = Tok(200);
    end!(c, (w == s.at(i)) as u8, has(s, w) + (w == 200) as u8);
}

// ------------------------------------------------------------------ refusals
fn refused<T>() {
    let (mut c, s, w) = start::<T>();
    let i = any_usize();
    let how = below(7);
    let mut arg = false;
    check!(panics(|| match how {
        0 => { assume(s.len == cap::<T>()); arg = true; c.push(Tok(200)); }
        1 => { assume(s.len == cap::<T>() || i > s.len); arg = true; c.insert(i, Tok(200)); }
        2 => { assume(i > s.len); c.split_off(i); }
        3 => { assume(i >= s.len); let _ = c[i].0; }
        4 => { assume(i >= s.len); arg = true; c[i] = Tok(200); }
        5 => { assume(i > s.len); let _ = c[i..].len(); }
        _ => { assume(i > s.len); let _ = c[..i].len(); }
    }));
    check!(is(&c, s.len, |j| s.at(j)));
    end!(c, (arg && w == 200) as u8, has(s, w) + (arg && w == 200) as u8);
}
/// more than fits: the ones that fit are kept, all are accounted for
fn overflow<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>() + 2);
    assume(n > cap::<T>() - s.len);
    check!(panics(|| Extend::<Tok>::extend(&mut c, src::<Tok>(100, n))));
    let fit = cap::<T>() - s.len;
    check!(is(&c, cap::<T>(), |j| if j < s.len { s.at(j) } else { 100 + (j - s.len) as u8 }));
    // the one that did not fit
    end!(c, (w == 100 + fit as u8) as u8, has(s, w) + has(Seq { base: 100, len: fit + 1 }, w));
}
/// an iterator that lies about its length is no reason to lose or invent anything
fn lied_to<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>() + 1);
    let it = crate::liar::Liar::<Tok>::new(any_usize(), any_usize(), n);
    if any_bool() {
        let p = panics(|| Extend::<Tok>::extend(&mut c, it));
        check!(p == (s.len + n > cap::<T>()));
        let len = if p { c.len() } else { s.len + n };
        check!(len <= cap::<T>() && is(&c, len, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 }));
        sound(c, w);
    } else {
        core::mem::forget(c);
        let p = panics(|| { let c: I<Tok, T> = it.collect(); check!(is(&c, n, |j| 150 + j as u8)); });
        check!(p == (n > cap::<T>()));
        check!(drops() == has(Seq { base: 150, len: n }, w));
    }
}
fn collect_overflow<T>() {
    let w = any_u8();
    watch(w);
    let n = cap::<T>() + 1 + below(3);
    check!(panics(|| { let _c: I<Tok, T> = src::<Tok>(100, n).collect(); }));
    check!(drops() == has(Seq { base: 100, len: cap::<T>() + 1 }, w));
}

// ------------------------------------------------------------------ panics
/// what c holds has not been released, and it still works
fn sound<T>(mut c: I<Tok, T>, w: u8) {
    ledger().armed = false;
    let len = c.len();
    check!(len <= cap::<T>());
    let mut held = 0;
    for j in 0..cap::<T>() { if j < len && c[j].0 == w { held += 1 } }
    check!(held + drops() <= 1);
    if len < cap::<T>() && any_bool() { c.push(Tok(250)); check!(c.len() == len + 1 && c[len].0 == 250) }
    drop(c);
    check!(drops() <= 1);
    if held == 1 { check!(drops() == 1) }
}
fn clear_panic<T>() {
    let (mut c, s, w) = start::<T>();
    arm(any_u8());
    let p = panics(|| c.clear());
    check!(p == !ledger().armed);
    check!(p == (has(s, ledger().bomb) == 1));
    cover!(p);
    sound(c, w);
}
fn drop_panic<T>() {
    let (c, s, w) = start::<T>();
    arm(any_u8());
    let how = below(2);
    let n = upto(cap::<T>());
    let p = panics(|| match how { 0 => drop(c), _ => { let mut it = c.into_iter(); for k in 0..cap::<T>() { if k < n { drop(if any_bool() { it.next() } else { it.next_back() }) } } } });
    check!(p == !ledger().armed);
    cover!(p);
    check!(drops() <= has(s, w));
    if !p { check!(drops() == has(s, w)) }
}
fn drain_panic<T>() {
    let (mut c, _, w) = start::<T>();
    arm(any_u8());
    let n = upto(cap::<T>());
    let p = panics(|| { let mut it = c.drain(); for k in 0..cap::<T>() { if k < n { drop(if any_bool() { it.next() } else { it.next_back() }) } } });
    check!(p == !ledger().armed);
    cover!(p);
    sound(c, w);
}
fn overwrite_panic<T>() {
    let (mut c, s, w) = start::<T>();
    arm(any_u8());
    let i = upto(cap::<T>());
    assume(i < s.len);
    let p = panics(|| c[i] = Tok(200));
    check!(p == !ledger().armed);
    cover!(p);
    check!(is(&c, s.len, |j| if j == i { 200 } else { s.at(j) }));
    sound(c, w);
}
/// the copies made before the panic may leak, but nothing is released twice and the original is untouched
fn clone_panic<T>() {
    let (c, s, w) = start::<T>();
    ledger().clone_bias = 100;
    let n = upto(cap::<T>());
    light(n as u8);
    let p = panics(|| { let _d = c.clone(); });
    check!(p == (n < s.len));
    cover!(p);
    unlight();
    check!(drops() <= has(Seq { base: 100, len: if p { n } else { s.len } }, w));
    ledger().drops = 0;
    check!(is(&c, s.len, |j| s.at(j)));
    end!(c, 0, has(s, w));
}
/// the iterator panics part of the way
fn extend_panic<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>());
    assume(s.len + n <= cap::<T>());
    let k = upto(cap::<T>());
    light(k as u8);
    let p = panics(|| Extend::<Tok>::extend(&mut c, src::<Tok>(100, n)));
    check!(if k < n { p } else { !p || k == n });
    cover!(p);
    unlight();
    let got = if p { k } else { n };
    check!(is(&c, s.len + got, |j| if j < s.len { s.at(j) } else { 100 + (j - s.len) as u8 }));
    end!(c, 0, has(s, w) + has(Seq { base: 100, len: got }, w));
}
fn collect_panic<T>() {
    let w = any_u8();
    watch(w);
    let n = upto(cap::<T>());
    let k = upto(cap::<T>());
    light(k as u8);
    let p = panics(|| { let _c: I<Tok, T> = src::<Tok>(100, n).collect(); });
    check!(if k < n { p } else { !p || k == n });
    cover!(p);
    check!(drops() == has(Seq { base: 100, len: if p { k } else { n } }, w));
}
/// copying over what is there: either side may panic
fn clone_from_panic<T>() {
    let (mut c, _) = inline::<Tok, T>(200);
    let (o, s) = inline::<Tok, T>(0);
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let drops_panic = any_bool();
    if drops_panic { arm(any_u8()) } else { light(upto(cap::<T>()) as u8) }
    let p = panics(|| c.clone_from(&o));
    cover!(p);
    if drops_panic { check!(p == !ledger().armed); } else { check!(p == unlight()); }
    ledger().armed = false;
    if !p { check!(is(&c, s.len, |j| s.at(j) + 100)); }
    check!(is(&o, s.len, |j| s.at(j)));
    if has(s, w) == 1 { check!(drops() == 0); drop(o); check!(drops() == 1); return }
    core::mem::forget(o);
    sound(c, w);
}
/// what is done with each element in turn panics
fn each_panic<T>() {
    let (mut c, s, w) = start::<T>();
    let n = upto(cap::<T>());
    light(n as u8);
    let f = |v: Tok| { burn(); drop(v) };
    let back = any_bool();
    if any_bool() {
        let p = panics(move || if back { c.into_iter().rev().for_each(f) } else { c.into_iter().for_each(f) });
        check!(p == (n < s.len) && p == unlight());
        cover!(p);
        check!(drops() <= has(s, w) && (p || drops() == has(s, w)));
    } else {
        let p = panics(|| if back { c.drain().rev().for_each(f) } else { c.drain().for_each(f) });
        check!(p == (n < s.len) && p == unlight());
        sound(c, w);
    }
}
/// a destructor panics while elements are skipped
fn skip_panic<T>() {
    let (mut c, s, w) = start::<T>();
    arm(any_u8());
    let n = upto(cap::<T>());
    let back = any_bool();
    if any_bool() {
        let p = panics(move || { let mut it = c.into_iter(); drop(if back { it.nth_back(n) } else { it.nth(n) }) });
        check!(p == !ledger().armed);
        cover!(p);
        check!(drops() <= has(s, w) && (p || drops() == has(s, w)));
    } else {
        let p = panics(|| { let mut it = c.drain(); drop(if back { it.nth_back(n) } else { it.nth(n) }) });
        check!(p == !ledger().armed);
        sound(c, w);
    }
}
/// looking at contents leaves them alone
fn compare_panic<T>() {
    let (c, s) = inline::<Tok, T>(0);
    let (o, t) = inline::<Tok, T>(if any_bool() { 0 } else { 1 });
    let w = any_u8();
    watch(w);
    light(upto(cap::<T>()) as u8);
    let how = below(4);
    let p = panics(|| match how { 0 => { let _ = c == o; } 1 => { let _ = c.cmp(&o); } 2 => { let _ = c.partial_cmp(&o); } _ => { let _ = c != o; } });
    cover!(p);
    check!(p == unlight());
    check!(drops() == 0 && is(&c, s.len, |j| s.at(j)) && is(&o, t.len, |j| t.at(j)));
    drop(o);
    check!(drops() == has(t, w));
    ledger().drops = 0;
    sound(c, w);
}
type A3 = [u8; 11];
type A4 = [u8; 12];
type A8 = [u64; 2];
harness! {
    q_pin_just_drop_wide40 = || build::pinned((0, 22), (0, 14), just_drop::<[u64; 6]>);
    q_pin_push_pop_wide40 = || build::pinned((0, 22), (0, 14), push_pop::<[u64; 6]>);
    q_pin_insert_remove_wide40 = || build::pinned((0, 22), (0, 14), insert_remove::<[u64; 6]>);
    q_pin_split_off_wide40 = || build::pinned((0, 22), (0, 14), split_off::<[u64; 6]>);
    q_pin_clear_wide40 = || build::pinned((0, 22), (0, 14), clear::<[u64; 6]>);
    q_pin_iterators_wide16 = || build::pinned((0, 9), (0, 6), iterators::<[u64; 3]>);
    q_pin_drain_forgotten_wide16 = || build::pinned((0, 9), (0, 6), drain_forgotten::<[u64; 3]>);
    q_pin_clone_wide40 = || build::pinned((0, 22), (0, 14), clone::<[u64; 6]>);
    q_pin_overwrite_wide40 = || build::pinned((0, 22), (0, 14), overwrite::<[u64; 6]>);
    q_pin_refused_wide40 = || build::pinned((0, 22), (0, 14), refused::<[u64; 6]>);
    q_pin_lied_to_wide16 = || build::pinned((0, 9), (0, 6), lied_to::<[u64; 3]>);
    q_pin_clear_panic_wide40 = || build::pinned((0, 22), (0, 14), clear_panic::<[u64; 6]>);
    q_pin_drop_panic_wide16 = || build::pinned((0, 9), (0, 6), drop_panic::<[u64; 3]>);
    q_pin_drain_panic_wide16 = || build::pinned((0, 9), (0, 6), drain_panic::<[u64; 3]>);
    q_pin_overwrite_panic_wide40 = || build::pinned((0, 22), (0, 14), overwrite_panic::<[u64; 6]>);
    q_pin_clone_panic_wide40 = || build::pinned((0, 22), (0, 14), clone_panic::<[u64; 6]>);
    q_pin_extend_panic_wide40 = || build::pinned((0, 22), (0, 14), extend_panic::<[u64; 6]>);
    q_pin_clone_from_panic_wide40 = || build::pinned((0, 22), (0, 14), clone_from_panic::<[u64; 6]>);
    q_pin_each_panic_wide40 = || build::pinned((0, 22), (0, 14), each_panic::<[u64; 6]>);
    q_pin_skip_panic_wide16 = || build::pinned((0, 9), (0, 6), skip_panic::<[u64; 3]>);
    q_pin_compare_panic_wide40 = || build::pinned((0, 22), (0, 14), compare_panic::<[u64; 6]>);
    q_pin_collect_panic_wide16 = || build::pinned((0, 9), (0, 6), collect_panic::<[u64; 3]>);
    q_pin_overflow_wide40 = || build::pinned((0, 40), (0, 40), overflow::<[u64; 6]>);
    q_pin_collect_overflow_wide40 = || build::pinned((0, 40), (0, 40), collect_overflow::<[u64; 6]>);
    q_just_drop4 = just_drop::<A4>;
    q_just_drop8 = just_drop::<A8>;
    q_push_pop4 = push_pop::<A4>;
    q_push_pop8 = push_pop::<A8>;
    q_insert_remove4 = insert_remove::<A4>;
    q_insert_remove8 = insert_remove::<A8>;
    q_split_off4 = split_off::<A4>;
    q_split_off8 = split_off::<A8>;
    q_clear4 = clear::<A4>;
    q_clear8 = clear::<A8>;
    q_iterators3 = iterators::<A3>;
    q_iterators4 = iterators::<A4>;
    q_drain_forgotten4 = drain_forgotten::<A4>;
    q_clone4 = clone::<A4>;
    q_clone8 = clone::<A8>;
    q_overwrite4 = overwrite::<A4>;
    q_refused4 = refused::<A4>;
    q_refused8 = refused::<A8>;
    q_overflow4 = overflow::<A4>;
    q_lied_to4 = lied_to::<A4>;
    q_collect_overflow4 = collect_overflow::<A4>;
    q_clear_panic4 = clear_panic::<A4>;
    q_drop_panic4 = drop_panic::<A4>;
    q_drain_panic4 = drain_panic::<A4>;
    q_overwrite_panic4 = overwrite_panic::<A4>;
    q_clone_panic4 = clone_panic::<A4>;
    q_extend_panic4 = extend_panic::<A4>;
    q_clone_from_panic4 = clone_from_panic::<A4>;
    q_each_panic4 = each_panic::<A4>;
    q_skip_panic4 = skip_panic::<A4>;
    q_compare_panic4 = compare_panic::<A4>;
    q_collect_panic4 = collect_panic::<A4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_drain_forgotten8 = drain_forgotten::<A8>;
    t_iterators8 = iterators::<A8>;
    t_clear_panic8 = clear_panic::<A8>;
    t_drop_panic8 = drop_panic::<A8>;
    t_drain_panic8 = drain_panic::<A8>;
    t_clone_panic8 = clone_panic::<A8>;
    t_extend_panic8 = extend_panic::<A8>;
    t_each_panic8 = each_panic::<A8>;
    t_skip_panic8 = skip_panic::<A8>;
    t_overflow8 = overflow::<A8>;
} }
