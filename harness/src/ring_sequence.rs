//! RingBuffer behaves as a bounded deque.
use crate::build::*;
use crate::seq::*;
use crate::sym::*;
use array_ops::ArrayMut;
use crate::*;
use sized_chunks::RingBuffer as C;
const FILE: u32 = 3700000;
/// the unchecked forms, and two elements at once
fn directly<A: Elem, const N: usize>() {
    let (mut q, s) = ring::<A, N>();
    let (i, k) = (below(N), below(N));
    assume(i < s.len && k < s.len);
    check!(unsafe { q.get_unchecked(i) }.id() == s.at(i));
    if any_bool() { *unsafe { q.get_unchecked_mut(i) } = A::mk(200); check!(same_ring(&q, s.len, |j| if j == i { 200 } else { s.at(j) })); }
    else { assume(i != k); q.map_pair(i, k, |a, b| core::mem::swap(a, b)); check!(same_ring(&q, s.len, |j| if j == i { s.at(k) } else if j == k { s.at(i) } else { s.at(j) })); }
}
harness! {
    q_directly5 = directly::<u32, 5>;
    q_directly24 = directly::<u8, 24>;
    q_push_back4 = push_back::<C<u8, 4>>;
    q_push_back5 = push_back::<C<u32, 5>>;
    q_push_front4 = push_front::<C<u8, 4>>;
    q_push_front5 = push_front::<C<u32, 5>>;
    q_push_front16 = push_front::<C<u8, 16>>;
    q_pop_back4 = pop_back::<C<u8, 4>>;
    q_pop_none4 = pop_none::<C<u8, 4>>;
    q_pop_front4 = pop_front::<C<u8, 4>>;
    q_pop_back3 = pop_back::<C<Big, 3>>;
    q_pop_front3 = pop_front::<C<Big, 3>>;
    q_insert1 = insert::<C<u8, 1>>;
    q_insert3 = insert::<C<Big, 3>>;
    q_insert5 = insert::<C<u32, 5>>;
    q_insert16 = insert::<C<u8, 16>>;
    q_remove1 = remove::<C<u8, 1>>;
    q_remove3 = remove::<C<Big, 3>>;
    q_remove5 = remove::<C<u32, 5>>;
    q_remove16 = remove::<C<u8, 16>>;
    q_set4 = set::<C<u8, 4>>;
    q_write_through4 = write_through::<C<u32, 4>>;
    q_look4 = look::<C<u8, 4>>;
    q_look16 = look::<C<u32, 16>>;
    q_swap4 = swap::<C<u8, 4>>;
    q_drop_left5 = drop_left::<C<u8, 5>>;
    q_drop_left16 = drop_left::<C<u8, 16>>;
    q_drop_right5 = drop_right::<C<u8, 5>>;
    q_drop_right16 = drop_right::<C<u8, 16>>;
    q_clear4 = clear::<C<u8, 4>>;
    q_copy4 = copy::<C<Cl, 4>>;
    q_copy3 = copy::<C<Big, 3>>;
    q_copy16 = copy::<C<u8, 16>>;
    q_make1 = make::<C<u8, 1>>;
    q_make2 = make::<C<u32, 2>>;
    q_make4 = make::<C<u8, 4>>;
    q_wide_full300 = wide::ring::<300, 0, 300>;
    q_wide_wrapped300 = wide::ring::<300, 280, 290>;
    q_push_back24 = push_back::<C<u8, 24>>;
    q_push_front24 = push_front::<C<u8, 24>>;
    q_drop_left24 = drop_left::<C<u8, 24>>;
    q_look24 = look::<C<u8, 24>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_push_back64 = push_back::<C<u8, 64>>;
    t_push_front64 = push_front::<C<u8, 64>>;
    t_drop_left64 = drop_left::<C<u8, 64>>;
    t_look64 = look::<C<u8, 64>>;
    t_insert24 = insert::<C<u8, 24>>;
    t_remove24 = remove::<C<u8, 24>>;
    t_copy_made12 = copy::<C<Cl, 12>>;
    t_insert_w32 = insert::<C<u32, 32>>;
    t_remove_w32 = remove::<C<u32, 32>>;
} }
