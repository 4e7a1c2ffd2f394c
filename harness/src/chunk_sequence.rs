//! Chunk behaves as a bounded deque.
use crate::seq::*;
use crate::*;
use sized_chunks::Chunk as C;
harness! {
    q_push_back4 = push_back::<C<u8, 4>>;
    q_push_back5 = push_back::<C<u32, 5>>;
    q_push_front4 = push_front::<C<u8, 4>>;
    q_push_front5 = push_front::<C<u32, 5>>;
    q_push_front16 = push_front::<C<u8, 16>>;
    q_pop_back4 = pop_back::<C<u8, 4>>;
    q_pop_front4 = pop_front::<C<u8, 4>>;
    q_pop_back3 = pop_back::<C<Big, 3>>;
    q_pop_front3 = pop_front::<C<Big, 3>>;
    q_insert1 = insert::<C<u8, 1>>;
    q_insert3 = insert::<C<Big, 3>>;
    q_insert5 = insert::<C<u32, 5>>;
    q_insert16 = insert::<C<u8, 16>>;
    q_remove1 = remove::<C<u8, 1>>;
    q_remove3 = remove::<C<Big, 3>>;
    q_remove5 = remove::<C<u32, 5>>;
    q_remove16 = remove::<C<u8, 16>>;
    q_set4 = set::<C<u8, 4>>;
    q_write_through4 = write_through::<C<u32, 4>>;
    q_look4 = look::<C<u8, 4>>;
    q_look16 = look::<C<u32, 16>>;
    q_swap4 = swap::<C<u8, 4>>;
    q_drop_left5 = drop_left::<C<u8, 5>>;
    q_drop_left16 = drop_left::<C<u8, 16>>;
    q_drop_right5 = drop_right::<C<u8, 5>>;
    q_drop_right16 = drop_right::<C<u8, 16>>;
    q_clear4 = clear::<C<u8, 4>>;
    q_copy4 = copy::<C<Cl, 4>>;
    q_copy3 = copy::<C<Big, 3>>;
    q_copy16 = copy::<C<u8, 16>>;
    q_make1 = make::<C<u8, 1>>;
    q_make2 = make::<C<u32, 2>>;
    q_make4 = make::<C<u8, 4>>;
    q_wide_full300 = wide::chunk::<300, 0, 300>;
    q_wide_right300 = wide::chunk::<300, 2, 300>;
    q_wide_middle300 = wide::chunk::<300, 7, 293>;
    q_push_back64 = push_back::<C<u8, 64>>;
    q_push_front64 = push_front::<C<u8, 64>>;
    q_insert64 = insert::<C<u8, 64>>;
    q_remove64 = remove::<C<u8, 64>>;
    q_drop_left64 = drop_left::<C<u8, 64>>;
    q_look64 = look::<C<u8, 64>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_copy_made12 = copy::<C<Cl, 12>>;
    t_insert_w32 = insert::<C<u32, 32>>;
    t_remove_w32 = remove::<C<u32, 32>>;
} }
