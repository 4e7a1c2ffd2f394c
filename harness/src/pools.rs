//! Initialising in place for a memory pool: whatever the memory held before, an empty container
//! or an independent copy comes to be there, and nothing else is read, written or released.
use crate::build::*;
use crate::own::has;
use crate::sp::{fresh, stale, exact, Map};
use crate::sym::*;
use crate::*;
#[allow(unused_imports)] use array_ops::HasLength;
use bitmaps::{Bits, BitsImpl};
use core::mem::MaybeUninit;
use refpool::{Pool, PoolClone, PoolDefault, PoolRef};
use sized_chunks::*;
const FILE: u32 = 2800000;

type M<T> = MaybeUninit<T>;
#[inline(always)]
fn fresh_default<T: PoolDefault>() -> T { let mut m: M<T> = M::uninit(); unsafe { T::default_uninit(&mut m); m.assume_init() } }
/// the memory held x before
#[inline(always)]
fn reused_default<T: PoolDefault>(x: T) -> T { let mut m = M::new(x); unsafe { m.assume_init_drop(); T::default_uninit(&mut m); m.assume_init() } }
#[inline(always)]
fn fresh_clone<T: PoolClone>(x: &T) -> T { let mut m: M<T> = M::uninit(); unsafe { x.clone_uninit(&mut m); m.assume_init() } }
#[inline(always)]
fn reused_clone<T: PoolClone>(x: &T, y: T) -> T { let mut m = M::new(y); unsafe { m.assume_init_drop(); x.clone_uninit(&mut m); m.assume_init() } }

// ---- the two sequences
macro_rules! sequence { ($m:ident, $T:ident, $any:ident, $from:ident, $same:ident, $cap:expr) => { pub mod $m { use super::*;
    fn usable<A: Elem, const N: usize>(c: &mut $T<A, N>, len: usize, f: impl Fn(usize) -> u8) {
        check!($same(c, len, &f) && c.is_empty() == (len == 0) && c.is_full() == (len == N));
        if len < N {
            if any_bool() { c.push_front(A::mk(200)); check!($same(c, len + 1, |j| if j == 0 { 200 } else { f(j - 1) })); }
            else { c.push_back(A::mk(200)); check!($same(c, len + 1, |j| if j == len { 200 } else { f(j) })); }
        }
    }
    pub fn default<A: Elem, const N: usize>() {
        let mut c: $T<A, N> = if any_bool() { fresh_default() } else { reused_default($any::<A, N>().0) };
        usable(&mut c, 0, |_| 0);
        for k in 1..N { c.push_back(A::mk(k as u8)); }
        check!(c.is_full());
    }
    pub fn clone<A: Elem + Clone, const N: usize>() {
        let (mut x, s) = $any::<A, N>();
        let mut c = if any_bool() { fresh_clone(&x) } else { let y = $from::<A, N>(100).0; reused_clone(&x, y) };
        usable(&mut c, s.len, |j| s.at(j).wrapping_add(A::BIAS));
        // independent of each other
        usable(&mut x, s.len, |j| s.at(j));
    }
    /// copies and originals are released separately, once each
    pub fn owned<const N: usize>() {
        let (x, s) = $any::<Tok, N>();
        let w = any_u8();
        watch(w);
        ledger().clone_bias = 100;
        let c = fresh_clone(&x);
        check!(drops() == 0);
        let t = Seq { base: s.base + 100, len: s.len };
        if any_bool() { drop(x); check!(drops() == has(s, w)); drop(c); } else { drop(c); check!(drops() == has(t, w)); drop(x); }
        check!(drops() == has(s, w) + has(t, w));
        let d = reused_default($any::<Tok, N>().0);
        watch(w);
        drop(d);
        check!(drops() == 0);
    }
    /// copying an element panics: the original is unharmed and nothing is released more than once
    pub fn panicking<const N: usize>() {
        let (x, s) = $any::<Tok, N>();
        let w = any_u8();
        watch(w);
        ledger().clone_bias = 100;
        let n = upto(N);
        light(n as u8);
        let mut m: M<$T<Tok, N>> = M::uninit();
        let p = panics(|| unsafe { x.clone_uninit(&mut m) });
        unlight();
        check!(p == (n < s.len));
        check!(drops() <= has(Seq { base: s.base + 100, len: n }, w));
        let d = drops();
        check!($same(&x, s.len, |j| s.at(j)));
        drop(x);
        check!(drops() == has(s, w) + d);
        if !p { unsafe { m.assume_init_drop() } check!(drops() == has(s, w) + has(Seq { base: s.base + 100, len: s.len }, w)); }
    }
    /// through the pool itself: made, changed, copied, put back and reused
    pub fn through<A: Elem + Clone, const N: usize>() {
        let pool: Pool<$T<A, N>> = Pool::new(2);
        let mut a = PoolRef::default(&pool);
        check!($same(&a, 0, |_| 0));
        let (x, s) = $any::<A, N>();
        let b = PoolRef::clone_from(&pool, &x);
        check!($same(&b, s.len, |j| s.at(j)));
        for k in 0..N { if k < 2 { PoolRef::make_mut(&pool, &mut a).push_back(A::mk(150 + k as u8)); } }
        let n = if N < 2 { N } else { 2 };
        let mut c = if any_bool() { PoolRef::cloned(&pool, &a) } else { a.clone() };
        drop(b);
        // written to alone, whether or not it was shared
        PoolRef::make_mut(&pool, &mut c).pop_back();
        check!($same(&a, n, |j| 150 + j as u8));
        check!($same(&c, n - 1, |j| 150 + j as u8));
        let d = PoolRef::default(&pool);
        check!($same(&d, 0, |_| 0));
    }
} } }
sequence!(ch, Chunk, chunk, chunk_from, same_chunk, N);
sequence!(ri, RingBuffer, ring, ring_from, same_ring, N);

// ---- the sparse chunk
pub mod sp { use super::*;
    fn usable<A: Elem, const N: usize>(c: &mut SparseChunk<A, N>, m: Map) where BitsImpl<N>: Bits {
        check!(exact(c, m, |j| m.at(j)));
        let i = below(N);
        if any_bool() { check!(match c.insert(i, A::mk(200)) { Some(v) => m.has(i) && v.id() == m.at(i), None => !m.has(i) }); check!(exact(c, m.with(i), |j| if j == i { 200 } else { m.at(j) })); }
        else { check!(match c.remove(i) { Some(v) => m.has(i) && v.id() == m.at(i), None => !m.has(i) }); check!(exact(c, m.without(i), |j| m.at(j))); }
    }
    pub fn default<A: Elem, const N: usize>() where BitsImpl<N>: Bits {
        let mut c: SparseChunk<A, N> = if any_bool() { fresh_default() } else { reused_default(fresh::<A, N>(50).0) };
        usable(&mut c, Map { base: 0, m: 0 });
    }
    pub fn clone<A: Elem + Clone, const N: usize>() where BitsImpl<N>: Bits {
        let (mut x, m) = stale::<A, N>(0);
        let mut c = if any_bool() { fresh_clone(&x) } else { let y = fresh::<A, N>(50).0; reused_clone(&x, y) };
        usable(&mut c, Map { base: m.base + A::BIAS, m: m.m });
        usable(&mut x, m);
    }
    pub fn owned<const N: usize>() where BitsImpl<N>: Bits {
        let (x, m) = stale::<Tok, N>(0);
        let w = any_u8();
        watch(w);
        ledger().clone_bias = 100;
        let c = fresh_clone(&x);
        check!(drops() == 0);
        let t = Map { base: 100, m: m.m };
        if any_bool() { drop(x); check!(drops() == m.holds(w)); drop(c); } else { drop(c); check!(drops() == t.holds(w)); drop(x); }
        check!(drops() == m.holds(w) + t.holds(w));
    }
    pub fn panicking<const N: usize>() where BitsImpl<N>: Bits {
        let (x, m) = stale::<Tok, N>(0);
        let w = any_u8();
        watch(w);
        ledger().clone_bias = 100;
        let n = upto(N);
        light(n as u8);
        let mut t: M<SparseChunk<Tok, N>> = M::uninit();
        let p = panics(|| unsafe { x.clone_uninit(&mut t) });
        unlight();
        check!(p == (n < m.count(N)));
        check!(drops() <= Map { base: 100, m: m.m }.holds(w));
        let d = drops();
        check!(exact(&x, m, |j| m.at(j)));
        drop(x);
        check!(drops() == m.holds(w) + d);
        if !p { unsafe { t.assume_init_drop() } check!(drops() == m.holds(w) + Map { base: 100, m: m.m }.holds(w)); }
    }
    pub fn through<A: Elem + Clone, const N: usize>() where BitsImpl<N>: Bits {
        let pool: Pool<SparseChunk<A, N>> = Pool::new(2);
        let none = Map { base: 150, m: 0 };
        let mut a = PoolRef::default(&pool);
        check!(exact(&a, none, |_| 0));
        let (i, k) = (below(N), below(N));
        PoolRef::make_mut(&pool, &mut a).insert(i, A::mk(150 + i as u8));
        let mut c = if any_bool() { PoolRef::cloned(&pool, &a) } else { a.clone() };
        PoolRef::make_mut(&pool, &mut c).insert(k, A::mk(150 + k as u8));
        check!(exact(&a, none.with(i), |j| 150 + j as u8));
        check!(exact(&c, none.with(i).with(k), |j| 150 + j as u8));
        drop(c);
        let d = PoolRef::default(&pool);
        check!(exact(&d, none, |_| 0));
    }
}
harness! {
    q_pin_ch_default_wide40 = || build::pinned((9, 22), (3, 14), ch::default::<u8, 40>);
    q_pin_ch_clone_wide40 = || build::pinned((9, 22), (3, 14), ch::clone::<u8, 40>);
    q_pin_ch_clone_full_wide40 = || build::pinned((0, 40), (0, 40), ch::clone::<Cl, 40>);
    q_pin_ch_clone_big_wide40 = || build::pinned((9, 22), (3, 14), ch::clone::<Big, 40>);
    q_pin_ch_owned_wide40 = || build::pinned((9, 22), (3, 14), ch::owned::<40>);
    q_pin_ch_panicking_wide40 = || build::pinned((9, 22), (3, 14), ch::panicking::<40>);
    q_pin_ch_through_wide40 = || build::pinned((9, 22), (3, 14), ch::through::<u8, 40>);
    q_pin_ch_default_wide40b = || build::pinned((25, 15), (28, 12), ch::default::<u8, 40>);
    q_pin_ch_clone_wide40b = || build::pinned((25, 15), (28, 12), ch::clone::<u8, 40>);
    q_pin_ch_owned_wide40b = || build::pinned((25, 15), (28, 12), ch::owned::<40>);
    q_pin_ch_panicking_wide40b = || build::pinned((25, 15), (28, 12), ch::panicking::<40>);
    q_pin_ch_through_wide40b = || build::pinned((25, 15), (28, 12), ch::through::<u8, 40>);
    q_pin_ri_default_wide40 = || build::pinned((33, 22), (30, 14), ri::default::<u8, 40>);
    q_pin_ri_clone_wide40 = || build::pinned((33, 22), (30, 14), ri::clone::<u8, 40>);
    q_pin_ri_clone_full_wide40 = || build::pinned((33, 40), (30, 40), ri::clone::<Cl, 40>);
    q_pin_ri_clone_big_wide40 = || build::pinned((33, 22), (30, 14), ri::clone::<Big, 40>);
    q_pin_ri_owned_wide40 = || build::pinned((33, 22), (30, 14), ri::owned::<40>);
    q_pin_ri_panicking_wide40 = || build::pinned((33, 22), (30, 14), ri::panicking::<40>);
    q_pin_ri_through_wide40 = || build::pinned((33, 22), (30, 14), ri::through::<u8, 40>);
    q_pin_ri_default_wide40b = || build::pinned((5, 30), (38, 10), ri::default::<u8, 40>);
    q_pin_ri_clone_wide40b = || build::pinned((5, 30), (38, 10), ri::clone::<u8, 40>);
    q_pin_ri_owned_wide40b = || build::pinned((5, 30), (38, 10), ri::owned::<40>);
    q_pin_ri_panicking_wide40b = || build::pinned((5, 30), (38, 10), ri::panicking::<40>);
    q_pin_ri_through_wide40b = || build::pinned((5, 30), (38, 10), ri::through::<u8, 40>);
    q_c_default16 = ch::default::<u8, 16>;
    q_c_clone10 = ch::clone::<u8, 10>;
    q_r_default12 = ri::default::<u8, 12>;
    q_r_clone9 = ri::clone::<u8, 9>;
    q_s_clone9 = sp::clone::<u8, 9>;
    q_c_default4 = ch::default::<u8, 4>;
    q_c_clone4 = ch::clone::<u8, 4>;
    q_c_clone4_made = ch::clone::<Cl, 4>;
    q_c_clone3_big = ch::clone::<Big, 3>;
    q_c_owned4 = ch::owned::<4>;
    q_c_panicking4 = ch::panicking::<4>;
    q_c_through3 = ch::through::<u8, 3>;
    q_r_default4 = ri::default::<u8, 4>;
    q_r_clone4 = ri::clone::<u8, 4>;
    q_r_clone4_made = ri::clone::<Cl, 4>;
    q_r_clone3_big = ri::clone::<Big, 3>;
    q_r_owned4 = ri::owned::<4>;
    q_r_panicking4 = ri::panicking::<4>;
    q_r_through3 = ri::through::<u8, 3>;
    q_s_default4 = sp::default::<u8, 4>;
    q_s_clone4 = sp::clone::<u8, 4>;
    q_s_clone4_made = sp::clone::<Cl, 4>;
    q_s_clone3_big = sp::clone::<Big, 3>;
    q_s_owned4 = sp::owned::<4>;
    q_s_panicking4 = sp::panicking::<4>;
    q_s_through4 = sp::through::<u8, 4>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_c_default16 = ch::default::<u8, 16>;
    t_c_clone16 = ch::clone::<u8, 16>;
    t_c_clone8_big = ch::clone::<Big, 8>;
    t_c_owned10 = ch::owned::<10>;
    t_c_panicking8 = ch::panicking::<8>;
    t_r_default12 = ri::default::<u8, 12>;
    t_r_clone12 = ri::clone::<u8, 12>;
    t_r_owned8 = ri::owned::<8>;
    t_r_panicking7 = ri::panicking::<7>;
    t_s_default10 = sp::default::<u8, 10>;
    t_s_clone10 = sp::clone::<u8, 10>;
    t_s_owned8 = sp::owned::<8>;
    t_s_panicking8 = sp::panicking::<8>;
    t_s_through70 = sp::through::<u8, 70>;
} }
