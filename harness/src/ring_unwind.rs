use crate::unwind::*;
use crate::build::Own;
use crate::sym::Tok;
use crate::*;
use sized_chunks::RingBuffer as C;
use crate::build::*;
use crate::own::has;
use crate::q::same;
use crate::sym::*;
use array_ops::{Array, ArrayMut};
const FILE: u32 = 3600000;
/// a comparison panics while sorting the buffer, or part of it
fn sort<const N: usize>() {
    let (mut q, s) = ring::<Tok, N>();
    let w = any_u8();
    watch(w);
    let (x, y) = (upto(N), upto(N));
    assume(x < y && y <= s.len);
    // any order to begin with
    let (i, j) = (upto(N), upto(N));
    assume(i < s.len && j < s.len);
    q.swap(i, j);
    light(any_u8() % 8);
    let p = panics(|| if x == 0 && y == s.len { q.sort_unstable() } else { q.slice_mut(x..y).sort_unstable() });
    cover!(p);
    check!(p == unlight());
    check!(drops() == 0);
    let mut here = 0;
    for k in 0..N { if k < s.len { here += (q[k].0 == w) as u8 } }
    check!(here == has(s, w));
    sound(q, w);
}
/// looking something up in a view leaves the buffer alone, and so does a copy of it that is given up half way
fn ask<const N: usize>() {
    let (mut q, s) = ring::<Tok, N>();
    ledger().clone_bias = 100;
    let w = any_u8();
    watch(w);
    let (x, y) = (upto(N), upto(N));
    assume(x <= y && y <= s.len);
    let n = upto(N);
    light(n as u8);
    let how = below(6);
    let t = core::mem::ManuallyDrop::new(Tok(any_u8() % 16));
    let p = panics(|| match how {
        0 => { let _ = q.slice(x..y).contains(&t); }
        1 => { let _ = q.slice_mut(x..y).binary_search(&t); }
        2 => { let _ = q.slice(x..y) == q.slice(0..y - x); }
        3 => { let _ = q.slice(x..y).is_sorted(); }
        4 => drop(q.slice(x..y).to_owned()),
        _ => drop(q.slice_mut(x..y).to_owned()),
    });
    cover!(p);
    check!(p == unlight());
    let made = Seq { base: s.at(x) + 100, len: if how < 4 { 0 } else if p { n } else { y - x } };
    check!(drops() == has(made, w));
    ledger().drops = 0;
    check!(same(&q, s.len, |j| s.at(j)));
    sound(q, w);
}
/// copying what is extended with panics
fn extend_copies<const N: usize>() {
    let (mut q, s) = ring::<Tok, N>();
    ledger().clone_bias = 50;
    let w = any_u8();
    watch(w);
    let (n, k) = (upto(N), upto(N));
    assume(s.len + n <= N);
    let o: [core::mem::ManuallyDrop<Tok>; N] = core::array::from_fn(|i| core::mem::ManuallyDrop::new(Tok(100 + i as u8)));
    light(k as u8);
    let p = panics(|| q.extend(o[..n].iter().map(|t| &**t)));
    check!(p == (k < n) && p == unlight());
    cover!(p);
    let got = if p { k } else { n };
    check!(drops() == 0 && same(&q, s.len + got, |j| if j < s.len { s.at(j) } else { 150 + (j - s.len) as u8 }));
    sound(q, w);
}
harness! {
    q_pin_drop_left_wide40 = || build::pinned((33, 22), (30, 14), drop_left::<C<Tok, 40>>);
    q_pin_drop_left_wide40b = || build::pinned((5, 30), (38, 10), drop_left::<C<Tok, 40>>);
    q_pin_drop_right_wide40 = || build::pinned((33, 22), (30, 14), drop_right::<C<Tok, 40>>);
    q_pin_drop_right_wide40b = || build::pinned((5, 30), (38, 10), drop_right::<C<Tok, 40>>);
    q_pin_clear_wide40 = || build::pinned((33, 22), (30, 14), clear::<C<Tok, 40>>);
    q_pin_clear_wide40b = || build::pinned((5, 30), (38, 10), clear::<C<Tok, 40>>);
    q_pin_just_drop_wide40 = || build::pinned((33, 22), (30, 14), just_drop::<C<Tok, 40>>);
    q_pin_just_drop_wide40b = || build::pinned((5, 30), (38, 10), just_drop::<C<Tok, 40>>);
    q_pin_assign_wide40 = || build::pinned((33, 22), (30, 14), assign::<C<Tok, 40>>);
    q_pin_assign_wide40b = || build::pinned((5, 30), (38, 10), assign::<C<Tok, 40>>);
    q_pin_consume_wide17 = || build::pinned((14, 9), (13, 6), consume::<C<Tok, 17>>);
    q_pin_clone_wide40 = || build::pinned((33, 22), (30, 14), clone::<C<Tok, 40>>);
    q_pin_clone_wide40b = || build::pinned((5, 30), (38, 10), clone::<C<Tok, 40>>);
    q_pin_clone_from_wide40 = || build::pinned((33, 22), (30, 14), clone_from::<C<Tok, 40>>);
    q_pin_clone_from_wide40b = || build::pinned((5, 30), (38, 10), clone_from::<C<Tok, 40>>);
    q_pin_each_wide40 = || build::pinned((33, 22), (30, 14), each::<C<Tok, 40>>);
    q_pin_each_wide40b = || build::pinned((5, 30), (38, 10), each::<C<Tok, 40>>);
    q_pin_skip_wide17 = || build::pinned((14, 9), (13, 6), skip::<C<Tok, 17>>);
    q_pin_compare_wide40 = || build::pinned((33, 22), (30, 14), compare::<C<Tok, 40>>);
    q_pin_compare_wide40b = || build::pinned((5, 30), (38, 10), compare::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40 = || build::pinned((33, 22), (30, 14), insert_ordered::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40b = || build::pinned((5, 30), (38, 10), insert_ordered::<C<Tok, 40>>);
    q_pin_extend_wide40 = || build::pinned((33, 22), (30, 14), extend::<C<Tok, 40>>);
    q_pin_extend_wide40b = || build::pinned((5, 30), (38, 10), extend::<C<Tok, 40>>);
    q_pin_insert_from_wide17 = || build::pinned((14, 9), (13, 6), insert_from::<C<Tok, 17>>);
    q_pin_insert_from_once_wide17 = || build::pinned((14, 9), (13, 6), insert_from_plain::<C<Own, 17>>);
    q_pin_extend_once_wide40 = || build::pinned((33, 22), (30, 14), extend_plain::<C<Own, 40>>);
    q_pin_extend_once_wide40b = || build::pinned((5, 30), (38, 10), extend_plain::<C<Own, 40>>);
    q_pin_insert_ordered_once_wide40 = || build::pinned((33, 22), (30, 14), insert_ordered_plain::<C<Shy, 40>>);
    q_pin_insert_ordered_once_wide40b = || build::pinned((5, 30), (38, 10), insert_ordered_plain::<C<Shy, 40>>);
    q_pin_ask_wide17 = || build::pinned((14, 9), (13, 6), ask::<17>);
    q_pin_extend_copies_wide40 = || build::pinned((33, 22), (30, 14), extend_copies::<40>);
    q_pin_extend_copies_wide40b = || build::pinned((5, 30), (38, 10), extend_copies::<40>);
    q_pin_build_wide40 = || build::pinned((33, 22), (30, 14), build::<C<Tok, 40>>);
    q_pin_build_wide40b = || build::pinned((5, 30), (38, 10), build::<C<Tok, 40>>);
    q_drop_left3 = drop_left::<C<Tok, 3>>;
    q_drop_left5 = drop_left::<C<Tok, 5>>;
    q_drop_right3 = drop_right::<C<Tok, 3>>;
    q_drop_right5 = drop_right::<C<Tok, 5>>;
    q_clear3 = clear::<C<Tok, 3>>;
    q_clear5 = clear::<C<Tok, 5>>;
    q_just_drop4 = just_drop::<C<Tok, 4>>;
    q_assign3 = assign::<C<Tok, 3>>;
    q_consume3 = consume::<C<Tok, 3>>;
    q_clone4 = clone::<C<Tok, 4>>;
    q_clone_from3 = clone_from::<C<Tok, 3>>;
    q_each4 = each::<C<Tok, 4>>;
    q_skip4 = skip::<C<Tok, 4>>;
    q_compare3 = compare::<C<Tok, 3>>;
    q_insert_ordered4 = insert_ordered::<C<Tok, 4>>;
    q_extend4 = extend::<C<Tok, 4>>;
    q_insert_from3 = insert_from::<C<Tok, 3>>;
    q_insert_from4 = insert_from::<C<Tok, 4>>;
    q_insert_from_once4 = insert_from_plain::<C<Own, 4>>;
    q_insert_from_once7 = insert_from_plain::<C<Own, 7>>;
    q_extend_once4 = extend_plain::<C<Own, 4>>;
    q_insert_ordered_once4 = insert_ordered_plain::<C<Shy, 4>>;
    q_sort3 = sort::<3>;
    q_ask4 = ask::<4>;
    q_extend_copies4 = extend_copies::<4>;
    q_build4 = build::<C<Tok, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_drop_left8 = drop_left::<C<Tok, 8>>;
    t_drop_right8 = drop_right::<C<Tok, 8>>;
    t_clear8 = clear::<C<Tok, 8>>;
    t_just_drop12 = just_drop::<C<Tok, 12>>;
    t_consume5 = consume::<C<Tok, 5>>;
    t_clone_from5 = clone_from::<C<Tok, 5>>;
    t_each6 = each::<C<Tok, 6>>;
    t_skip6 = skip::<C<Tok, 6>>;
    t_compare5 = compare::<C<Tok, 5>>;
    t_clone8 = clone::<C<Tok, 8>>;
    t_insert_ordered8 = insert_ordered::<C<Tok, 8>>;
    t_extend8 = extend::<C<Tok, 8>>;
    t_insert_from6 = insert_from::<C<Tok, 6>>;
    t_sort4 = sort::<4>;
    t_ask6 = ask::<6>;
    t_extend_copies8 = extend_copies::<8>;
    t_build12 = build::<C<Tok, 12>>;
} }
