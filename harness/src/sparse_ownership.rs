//! Values in a sparse chunk are released exactly once, at the right moment;
//! also when a callback panics.
use crate::sp::*;
use crate::sym::*;
use crate::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk as S;
const FILE: u32 = 1300000;

macro_rules! end { ($q:expr, $before:expr, $after:expr) => { check!(drops() == $before); drop($q); check!(drops() == $after); } }
#[inline(always)]
fn start<const N: usize>() -> (S<Tok, N>, Map, u8) where BitsImpl<N>: Bits { let (c, m) = if N % 2 == 0 { stale(0) } else { fresh(0) }; let w = any_u8(); watch(w); (c, m, w) }

fn just_drop<const N: usize>() where BitsImpl<N>: Bits { let (c, m, w) = start::<N>(); end!(c, 0, m.holds(w)); }
fn insert<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m, w) = start::<N>();
    let i = below(N);
    let old = c.insert(i, Tok(200));
    check!(drops() == 0);
    drop(old);
    end!(c, (m.has(i) && w == m.at(i)) as u8, m.holds(w) + (w == 200) as u8);
}
fn remove<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m, w) = start::<N>();
    let i = below(N);
    let old = c.remove(i);
    check!(drops() == 0);
    drop(old);
    end!(c, (m.has(i) && w == m.at(i)) as u8, m.holds(w));
}
fn pop<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m, w) = start::<N>();
    let old = c.pop();
    check!(drops() == 0);
    let id = match &old { Some(t) => t.0, None => 255 };
    drop(old);
    end!(c, (id != 255 && w == id) as u8, m.holds(w));
}
fn pair<const N: usize>() where BitsImpl<N>: Bits {
    let (i, k) = (below(N), below(N));
    let w = any_u8();
    watch(w);
    let c = S::<Tok, N>::pair(i, Tok(7), k, Tok(9));
    check!(drops() == (i == k && w == 7) as u8);
    drop(c);
    check!(drops() == (w == 7 || w == 9) as u8);
}
/// drained part of the way
fn drain<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    let k = upto(N);
    let mut it = c.drain();
    let mut n = 0;
    for i in 0..N { if n < k && m.has(i) { n += 1; match it.next() { Some(t) => { check!(t.0 == m.at(i)); core::mem::forget(t) } None => check!(false) } } }
    check!(drops() == 0);
    drop(it);
    let mut rest = m;
    let mut n = 0;
    for i in 0..N { if n < k && m.has(i) { n += 1; rest = rest.without(i) } }
    check!(drops() == rest.holds(w));
}
fn option_drain<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    let k = upto(N);
    let mut it = c.option_drain();
    let mut rest = m;
    for i in 0..N { if i < k { rest = rest.without(i); match it.next() { Some(t) => core::mem::forget(t), None => check!(false) } } }
    check!(drops() == 0);
    drop(it);
    check!(drops() == rest.holds(w));
}
fn clone<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    ledger().clone_bias = 100;
    let d = if any_bool() { c.clone() } else { let (mut d, u) = stale::<Tok, N>(200); ledger().drops = 0; d.clone_from(&c); check!(drops() == u.holds(w)); ledger().drops = 0; d };
    check!(exact(&d, m, |i| 100 + i as u8));
    check!(exact(&c, m, |i| m.at(i)));
    let n = Map { base: 100, m: m.m };
    if any_bool() { end!(c, 0, m.holds(w)); end!(d, m.holds(w), m.holds(w) + n.holds(w)); } else { end!(d, 0, n.holds(w)); end!(c, n.holds(w), m.holds(w) + n.holds(w)); }
}
/// Clone panics at some element: the copies made so far are released, the originals are not touched
fn clone_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    ledger().clone_bias = 100;
    let n = upto(N);
    light(n as u8);
    let p = panics(|| { let _d = c.clone(); });
    check!(p == (n < m.count(N)));
    cover!(p);
    unlight();
    let mut made = Map { base: 100, m: m.m };
    if p { let mut k = 0; for i in 0..N { if m.has(i) { if k >= n { made = made.without(i) } k += 1 } } }
    check!(drops() == made.holds(w));
    ledger().drops = 0;
    check!(exact(&c, m, |i| m.at(i)));
    end!(c, 0, m.holds(w));
}
/// a destructor panics while the chunk goes away: nothing is released twice
fn drop_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    arm(any_u8());
    let how = below(3);
    let p = panics(|| match how { 0 => drop(c), 1 => { let mut it = c.drain(); drop(it.next()); } _ => { let mut it = c.option_drain(); it.next(); it.next(); } });
    check!(p == !ledger().armed);
    cover!(p);
    check!(drops() <= m.holds(w));
    if !p { check!(drops() == m.holds(w)) }
}
/// copying over what is there: either side may panic
fn clone_from_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, _) = stale::<Tok, N>(200);
    ledger().drops = 0;
    let (o, m) = fresh::<Tok, N>(0);
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let drops_panic = any_bool();
    if drops_panic { arm(any_u8()) } else { light(upto(N) as u8) }
    let p = panics(|| c.clone_from(&o));
    cover!(p);
    if drops_panic { check!(p == !ledger().armed); } else { check!(p == unlight()); }
    ledger().armed = false;
    if !p { check!(exact(&c, m, |i| 100 + i as u8)); }
    check!(exact(&o, m, |i| m.at(i)));
    if m.holds(w) == 1 { check!(drops() == 0); drop(o); check!(drops() == 1); return }
    core::mem::forget(o);
    sound(c, w);
}
/// what is held has not been released, and is released once
fn sound<const N: usize>(c: S<Tok, N>, w: u8) where BitsImpl<N>: Bits {
    let mut held = 0;
    for i in 0..N { if let Some(t) = c.get(i) { held += (t.0 == w) as u8 } }
    check!(held + drops() <= 1);
    let d = drops();
    drop(c);
    check!(drops() == d + held);
}
/// what is done with each value in turn panics
fn each_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    let n = upto(N);
    light(n as u8);
    let f = |v: Tok| { burn(); drop(v) };
    let p = panics(move || match below(3) { 0 => c.into_iter().for_each(f), 1 => c.drain().for_each(f), _ => c.option_drain().for_each(|v| if let Some(v) = v { f(v) }) });
    check!(p == (n < m.count(N)) && p == unlight());
    cover!(p);
    check!(drops() <= m.holds(w) && (p || drops() == m.holds(w)));
}
/// a destructor panics while values are skipped
fn skip_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m, w) = start::<N>();
    arm(any_u8());
    let n = upto(N);
    let p = panics(move || if any_bool() { drop(c.drain().nth(n)) } else { drop(c.option_drain().nth(n)) });
    check!(p == !ledger().armed);
    cover!(p);
    check!(drops() <= m.holds(w) && (p || drops() == m.holds(w)));
}
/// a comparison panics: both are as they were
fn compare_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (c, m) = fresh::<Tok, N>(0);
    let (o, k) = fresh::<Tok, N>(if any_bool() { 0 } else { 1 });
    let w = any_u8();
    watch(w);
    light(upto(N) as u8);
    let p = panics(|| { let _ = c == o; });
    cover!(p);
    check!(p == unlight());
    check!(drops() == 0 && exact(&c, m, |i| m.at(i)) && exact(&o, k, |i| k.at(i)));
    drop(o);
    check!(drops() == k.holds(w));
    ledger().drops = 0;
    sound(c, w);
}
/// the iterator collected from panics
fn collect_panic<const N: usize>() where BitsImpl<N>: Bits {
    let w = any_u8();
    watch(w);
    let n = upto(N);
    let mut made = Map { base: 100, m: 0 };
    let (r, mut k) = (&mut made, 0);
    let p = panics(|| {
        let _c: S<Tok, N> = core::iter::from_fn(|| { let i = k; k += 1; if i == n { throw() } if i >= N { None } else if any_bool() { r.m |= 1 << i; Some(Some(Tok(100 + i as u8))) } else { Some(None) } }).collect();
    });
    check!(p);
    check!(drops() == made.holds(w));
}
/// the iterator collected from lies about how many values there are
struct Lies<F>(usize, Option<usize>, F);
impl<F: FnMut() -> Option<Option<Tok>>> Iterator for Lies<F> {
    type Item = Option<Tok>;
    fn next(&mut self) -> Option<Option<Tok>> { (self.2)() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0, self.1) }
}
fn lied_to<const N: usize>() where BitsImpl<N>: Bits {
    let w = any_u8();
    watch(w);
    let n = upto(N);
    let mut made = Map { base: 100, m: 0 };
    let (r, mut k) = (&mut made, 0);
    let hint = (any_usize(), if any_bool() { Some(any_usize()) } else { None });
    let c: S<Tok, N> = Lies(hint.0, hint.1, || { let i = k; k += 1; if i >= n { None } else if any_bool() { r.m |= 1 << i; Some(Some(Tok(100 + i as u8))) } else { Some(None) } }).collect();
    check!(exact(&c, made, |j| 100 + j as u8));
    end!(c, 0, made.holds(w));
}
/// replacing or removing a value whose destructor panics
fn replace_panic<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m, w) = start::<N>();
    arm(any_u8());
    let i = below(N);
    let how = below(3);
    let p = panics(|| match how { 0 => drop(c.insert(i, Tok(200))), 1 => drop(c.remove(i)), _ => match c.get_mut(i) { Some(t) => *t = Tok(200), None => () } });
    check!(p == !ledger().armed);
    cover!(p);
    ledger().armed = false;
    let here = m.has(i);
    let now = if how == 0 { m.with(i) } else if how == 1 { m.without(i) } else { m };
    check!(exact(&c, now, |j| if j == i { 200 } else { m.at(j) }));
    check!(drops() == (here && w == m.at(i)) as u8);
    drop(c);
    check!(drops() == m.holds(w) + (w == 200 && (how == 0 || how == 2 && here)) as u8);
}
/// refused operations change nothing and release what they were given
fn refused<const N: usize>() where BitsImpl<N>: Bits {
    let (mut c, m, w) = start::<N>();
    let i = any_usize();
    let how = below(4);
    let mut arg = false;
    check!(panics(|| match how {
        0 => { assume(i >= N); arg = true; c.insert(i, Tok(200)); }
        1 => { assume(i >= N); c.remove(i); }
        2 => { assume(i >= N || !m.has(i)); let _ = c[i].0; }
        _ => { assume(i >= N || !m.has(i)); arg = true; c[i] = Tok(200); }
    }));
    check!(exact(&c, m, |j| m.at(j)));
    end!(c, (arg && w == 200) as u8, m.holds(w) + (arg && w == 200) as u8);
}
/// values for positions there are not
fn collect_refused<const N: usize>() where BitsImpl<N>: Bits {
    let w = any_u8();
    watch(w);
    let i = below(N);
    let two = any_bool();
    let mut k = 0;
    // one value inside (perhaps), one just past the end
    check!(panics(|| { let _c: S<Tok, N> = core::iter::from_fn(|| { let j = k; k += 1; if j > N { None } else { Some(if j == N { Some(Tok(200)) } else if two && j == i { Some(Tok(100)) } else { None }) } }).collect(); }));
    check!(drops() == (w == 200 || two && w == 100) as u8);
    check!(panics(|| { S::<u8, N>::unit(N + any_u8() as usize, 1); }));
}
harness! {
    q_just_drop4 = just_drop::<4>;
    q_just_drop9 = just_drop::<9>;
    q_just_drop16 = just_drop::<16>;
    q_insert4 = insert::<4>;
    q_insert9 = insert::<9>;
    q_remove4 = remove::<4>;
    q_remove9 = remove::<9>;
    q_pop4 = pop::<4>;
    q_pop9 = pop::<9>;
    q_pair4 = pair::<4>;
    q_pair64 = pair::<64>;
    q_drain3 = drain::<3>;
    q_drain6 = drain::<6>;
    q_option_drain4 = option_drain::<4>;
    q_option_drain9 = option_drain::<9>;
    q_clone4 = clone::<4>;
    q_clone9 = clone::<9>;
    q_clone_panic4 = clone_panic::<4>;
    q_drop_panic4 = drop_panic::<4>;
    q_clone_from_panic4 = clone_from_panic::<4>;
    q_each_panic4 = each_panic::<4>;
    q_skip_panic4 = skip_panic::<4>;
    q_compare_panic4 = compare_panic::<4>;
    q_collect_panic4 = collect_panic::<4>;
    q_lied_to4 = lied_to::<4>;
    q_replace_panic4 = replace_panic::<4>;
    q_refused4 = refused::<4>;
    q_refused9 = refused::<9>;
    q_collect_refused4 = collect_refused::<4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_just_drop33 = just_drop::<33>;
    t_just_drop64 = just_drop::<64>;
    t_insert33 = insert::<33>;
    t_remove33 = remove::<33>;
    t_drain12 = drain::<12>;
    t_clone16 = clone::<16>;
    t_clone_panic8 = clone_panic::<8>;
    t_drop_panic8 = drop_panic::<8>;
    t_each_panic8 = each_panic::<8>;
    t_skip_panic8 = skip_panic::<8>;
    t_clone_from_panic6 = clone_from_panic::<6>;
    t_replace_panic9 = replace_panic::<9>;
    t_refused33 = refused::<33>;
} }
