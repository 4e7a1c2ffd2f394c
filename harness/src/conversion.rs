//! Turning an inline array into a chunk moves its elements, in order, all or none.
use crate::build::*;
use crate::ia::*;
use crate::own::has;
use crate::sym::*;
use crate::*;
use sized_chunks::*;
const FILE: u32 = 2700000;

/// by reference or by value; the chunk works afterwards wherever it has room, and so does the emptied array
fn moved<A: Elem, T, const N: usize>() {
    let (mut a, s) = inline::<A, T>(10);
    assume(s.len <= N);
    let mut c = if any_bool() {
        let c: Chunk<A, N> = Chunk::from(&mut a);
        check!(a.is_empty() && a.len() == 0);
        if InlineArray::<A, T>::CAPACITY > 0 { a.push(A::mk(99)); check!(a.len() == 1 && a[0].id() == 99 && a.pop().unwrap().id() == 99); }
        c
    } else { a.into() };
    check!(same_chunk(&c, s.len, |j| s.at(j)) && c.is_empty() == (s.len == 0) && c.is_full() == (s.len == N));
    if s.len < N {
        if any_bool() { c.push_front(A::mk(200)); check!(same_chunk(&c, s.len + 1, |j| if j == 0 { 200 } else { s.at(j - 1) })); }
        else { c.push_back(A::mk(200)); check!(same_chunk(&c, s.len + 1, |j| if j == s.len { 200 } else { s.at(j) })); }
    }
}
/// too many elements: refused, the array is as it was
fn refused<A: Elem, T, const N: usize>() {
    let (mut a, s) = inline::<A, T>(10);
    check!(panics(|| { let c: Chunk<A, N> = Chunk::from(&mut a); core::mem::forget(c); }) == (s.len > N));
    check!(same_slice(&a, if s.len > N { s.len } else { 0 }, InlineArray::<A, T>::CAPACITY, |j| s.at(j)));
}
fn owned<T, const N: usize>() {
    let (mut a, s) = inline::<Tok, T>(10);
    let w = any_u8();
    watch(w);
    if any_bool() {
        let mut got = None;
        let p = panics(|| { let c: Chunk<Tok, N> = Chunk::from(&mut a); got = Some(c); });
        check!(p == (s.len > N) && drops() == 0);
        if any_bool() { drop(got); check!(drops() == if p { 0 } else { has(s, w) }); drop(a); }
        else { drop(a); check!(drops() == if p { has(s, w) } else { 0 }); drop(got); }
    } else {
        let mut got = None;
        let p = panics(|| { let c: Chunk<Tok, N> = a.into(); got = Some(c); });
        check!(p == (s.len > N) && drops() == if p { has(s, w) } else { 0 });
        drop(got);
    }
    check!(drops() == has(s, w));
}
/// elements without a size: the array can hold any number, the chunk N
fn sizeless<const N: usize>() {
    let mut a: InlineArray<(), [u64; 2]> = InlineArray::new();
    let n = upto(N + 2);
    for k in 0..N + 2 { if k < n { a.push(()) } }
    check!(a.len() == n);
    let mut m = 0;
    check!(panics(|| { let c: Chunk<(), N> = Chunk::from(&mut a); m = c.len(); }) == (n > N));
    check!(m == if n > N { 0 } else { n });
    check!(a.len() == if n > N { n } else { 0 });
}
harness! {
    q_pin_moved_wide40_30 = || build::pinned((0, 22), (0, 14), moved::<u8, [u64; 6], 30>);
    q_pin_moved_full_wide40_40 = || build::pinned((0, 40), (0, 40), moved::<u8, [u64; 6], 40>);
    q_pin_moved_wide_big15 = || build::pinned((0, 7), (0, 5), moved::<Big, [u64; 46], 9>);
    q_pin_refused_wide40_30 = || build::pinned((0, 33), (0, 33), refused::<u8, [u64; 6], 30>);
    q_pin_refused_wide40_20 = || build::pinned((0, 22), (0, 14), refused::<u8, [u64; 6], 20>);
    q_pin_owned_wide40_30 = || build::pinned((0, 22), (0, 14), owned::<[u64; 6], 30>);
    q_pin_owned_wide40_20 = || build::pinned((0, 22), (0, 14), owned::<[u64; 6], 20>);
    q_moved7_8 = moved::<u8, [u64; 2], 8>;
    q_moved8_8 = moved::<u8, [u64; 2], 4>;
    q_moved_big = moved::<Big, [u64; 8], 2>;
    q_moved_u32 = moved::<u32, [u64; 3], 5>;
    q_moved_empty = moved::<u8, u64, 3>;
    q_refused8_4 = refused::<u8, [u64; 2], 4>;
    q_refused8_7 = refused::<u8, [u64; 2], 7>;
    q_refused8_8 = refused::<u8, [u64; 2], 8>;
    q_refused4_3 = refused::<u32, [u64; 3], 3>;
    q_owned8_5 = owned::<[u64; 2], 5>;
    q_owned8_9 = owned::<[u64; 2], 9>;
    q_sizeless3 = sizeless::<3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_moved24_24 = moved::<u8, [u64; 4], 24>;
    t_moved24_9 = moved::<u8, [u64; 4], 9>;
    t_moved_big = moved::<Big, [u64; 16], 6>;
    t_moved_u32 = moved::<u32, [u64; 9], 20>;
    t_refused24_16 = refused::<u8, [u64; 4], 16>;
    t_refused_big = refused::<Big, [u64; 16], 3>;
    t_owned24_20 = owned::<[u64; 4], 20>;
    t_sizeless9 = sizeless::<9>;
} }
