//! Containers that can hold nothing: every operation that changes nothing works, all others are refused.
use crate::build::*;
use crate::q::*;
use crate::sym::*;
use crate::*;
use array_ops::{Array, HasLength};
use sized_chunks::*;
const FILE: u32 = 3000000;

#[inline(always)]
fn hollow<Q: Deq>(q: &mut Q) {
    let i = any_usize();
    check!(q.len() == 0 && q.is_empty() && q.is_full());
    check!(q.get(i).is_none() && q.get_mut(i).is_none());
    check!(q.first().is_none() && q.last().is_none() && q.first_mut().is_none() && q.last_mut().is_none());
    let b = any_bool();
    { let mut it = q.iter(); check!(it.len() == 0 && if b { it.next() } else { it.next_back() }.is_none()); }
    { let mut it = q.iter_mut(); check!(it.len() == 0 && if b { it.next() } else { it.next_back() }.is_none()); }
    { let mut it = q.drain(); check!(it.len() == 0 && if b { it.next() } else { it.next_back() }.is_none()); }
}
fn idle<Q: Deq>() {
    let mut q = if any_bool() { Q::new() } else { Q::from_iter(src::<Q::A>(0, 0)) };
    hollow(&mut q);
    match below(11) {
        0 => q.clear(),
        1 => q.drop_left(0),
        2 => q.drop_right(0),
        3 => { let mut o = q.split_off(0); hollow(&mut o) }
        4 => { let mut o = Q::new(); q.append(&mut o); hollow(&mut o) }
        5 => { let mut o = Q::new(); q.drain_from_front(&mut o, 0); hollow(&mut o) }
        6 => { let mut o = Q::new(); q.drain_from_back(&mut o, 0); hollow(&mut o) }
        7 => { let mut o = match below(3) { 0 => Q::drain_from(&mut q), 1 => Q::from_front(&mut q, 0), _ => Q::from_back(&mut q, 0) }; hollow(&mut o) }
        8 => { q.extend(src::<Q::A>(0, 0)); q.insert_from(0, src::<Q::A>(0, 0)) }
        9 => { let mut it = src::<Q::A>(7, 1); let mut o = Q::collect_from(&mut it, 0); hollow(&mut o); check!(match it.next() { Some(v) => v.id() == 7, None => false }); }
        _ => if Q::is_ring() { check!(q.pop_front().is_none() && q.pop_back().is_none()) }
    }
    hollow(&mut q);
    let mut it = q.into_it();
    check!(it.len() == 0 && it.next().is_none() && it.next_back().is_none());
}
/// the value that found no room is released, once
fn refused<Q: Deq<A = Tok>>() {
    let mut q = Q::new();
    let w = any_u8();
    watch(w);
    let (i, n) = (any_usize(), any_usize());
    let how = below(16);
    let mut arg = true;
    check!(panics(|| match how {
        0 => q.push_front(Tok(9)),
        1 => q.push_back(Tok(9)),
        2 => q.insert(i, Tok(9)),
        3 => { if Q::is_ring() { arg = false; throw() } q.set(i, Tok(9)); }
        4 => q.insert_ordered(Tok(9)),
        5 => { Q::unit(Tok(9)); }
        6 => { arg = false; q.remove(i); }
        7 => { arg = false; assume(i > 0); q.drop_left(i) }
        8 => { arg = false; assume(i > 0); q.drop_right(i) }
        9 => { arg = false; assume(i > 0); q.split_off(i); }
        10 => { arg = false; let mut o = Q::new(); assume(n > 0); q.drain_from_front(&mut o, n) }
        11 => { arg = false; let mut o = Q::new(); assume(n > 0); q.drain_from_back(&mut o, n) }
        12 => { arg = false; assume(n > 0); if any_bool() { Q::from_front(&mut q, n) } else { Q::from_back(&mut q, n) }; }
        13 => { q.insert_from(0, core::iter::once(Tok(9))) }
        14 => { q.extend(core::iter::once(Tok(9))) }
        _ => { Q::from_iter(core::iter::once(Tok(9))); }
    }));
    check!(drops() == (arg && w == 9) as u8);
    hollow(&mut q);
    drop(q);
    check!(drops() == (arg && w == 9) as u8);
}
fn alike<Q: Deq + Clone + PartialEq + PartialOrd + core::hash::Hash>() {
    let q = Q::new();
    let mut c = q.clone();
    hollow(&mut c);
    check!(q == c && !(q != c) && q <= c && !(q < c) && q.partial_cmp(&c) == Some(core::cmp::Ordering::Equal));
    let (a, b) = (crate::cmp::hashed(&q), crate::cmp::hashed(&c));
    check!(crate::cmp::same_hash(&a, &b));
}
fn views<A: Elem>() {
    let mut q: RingBuffer<A, 0> = RingBuffer::new();
    let i = any_usize();
    let b = any_bool();
    {
        let s = q.slice(..);
        check!(s.len() == 0 && s.is_empty() && s.get(i).is_none() && s.first().is_none() && s.last().is_none());
        check!(s.iter().next().is_none() && s.iter().next_back().is_none());
        let (x, y) = s.split_at(0);
        check!(x.len() == 0 && y.len() == 0);
    }
    {
        let mut s = q.slice_mut(0..0);
        check!(s.len() == 0 && array_ops::ArrayMut::get_mut(&mut s, i).is_none());
        check!(if b { s.iter_mut().next() } else { s.iter_mut().next_back() }.is_none());
    }
    check!(panics(|| if b { q[i].id(); } else { q[i] = A::mk(1) }));
    let (x, y) = (any_usize(), any_usize());
    if x != 0 || y != 0 { check!(panics(|| { if b { q.slice(x..y); } else { q.slice_mut(x..y); } })); }
    hollow(&mut q);
}
fn chunk_slice<A: Elem>() {
    let mut q: Chunk<A, 0> = Chunk::new();
    let i = any_usize();
    check!(q.as_slice().is_empty() && q.as_mut_slice().is_empty() && (&q[..]).is_empty() && (&mut q[0..0]).is_empty());
    check!(panics(|| if any_bool() { q[i].id(); } else { q[i] = A::mk(1) }));
    let mut e: InlineArray<A, [u64; 4]> = InlineArray::new();
    let b = any_bool();
    if b { e.push(A::mk(5)) }
    check!(panics(|| { let _c: Chunk<A, 0> = Chunk::from(&mut e); }) == b);
    check!(e.len() == b as usize);
    if b { check!(e[0].id() == 5) }
    hollow(&mut q);
}
fn bytes<W: std::io::Write + std::io::Read + Deq>() {
    let mut q = W::new();
    let b = [1u8, 2, 3];
    let n = upto(3);
    match q.write(&b[..n]) { Ok(k) => check!(k == 0), Err(e) => { core::mem::forget(e); check!(false) } }
    let mut t = [9u8; 3];
    match q.read(&mut t[..n]) { Ok(k) => check!(k == 0), Err(e) => { core::mem::forget(e); check!(false) } }
    for k in 0..3 { check!(t[k] == 9) }
    hollow(&mut q);
}
harness! {
    q_c_idle = idle::<Chunk<u8, 0>>;
    q_c_idle_tok = idle::<Chunk<Tok, 0>>;
    q_c_refused = refused::<Chunk<Tok, 0>>;
    q_c_alike = alike::<Chunk<u8, 0>>;
    q_c_slice = chunk_slice::<u8>;
    q_c_bytes = bytes::<Chunk<u8, 0>>;
    q_r_idle = idle::<RingBuffer<u8, 0>>;
    q_r_idle_tok = idle::<RingBuffer<Tok, 0>>;
    q_r_refused = refused::<RingBuffer<Tok, 0>>;
    q_r_alike = alike::<RingBuffer<u8, 0>>;
    q_r_views = views::<u8>;
    q_r_bytes = bytes::<RingBuffer<u8, 0>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_c_idle_big = idle::<Chunk<Big, 0>>;
    t_c_slice_big = chunk_slice::<Big>;
    t_r_idle_big = idle::<RingBuffer<Big, 0>>;
    t_r_views_big = views::<Big>;
} }
