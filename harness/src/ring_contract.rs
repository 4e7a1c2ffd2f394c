use crate::contract::*;
use crate::*;
use sized_chunks::RingBuffer as C;
harness! {
    q_pin_push_full_wide40 = || build::pinned((33, 40), (30, 40), push_full::<C<u8, 40>>);
    q_pin_insert_wide40 = || build::pinned((33, 22), (30, 14), insert::<C<u32, 40>>);
    q_pin_insert_wide40b = || build::pinned((5, 30), (38, 10), insert::<C<u32, 40>>);
    q_pin_remove_wide40 = || build::pinned((33, 22), (30, 14), remove::<C<u32, 40>>);
    q_pin_remove_wide40b = || build::pinned((5, 30), (38, 10), remove::<C<u32, 40>>);
    q_pin_index_wide40 = || build::pinned((33, 22), (30, 14), index::<C<u32, 40>>);
    q_pin_index_wide40b = || build::pinned((5, 30), (38, 10), index::<C<u32, 40>>);
    q_pin_drop_side_wide40 = || build::pinned((33, 22), (30, 14), drop_side::<C<u32, 40>>);
    q_pin_drop_side_wide40b = || build::pinned((5, 30), (38, 10), drop_side::<C<u32, 40>>);
    q_pin_split_off_wide40 = || build::pinned((33, 22), (30, 14), split_off::<C<u32, 40>>);
    q_pin_split_off_wide40b = || build::pinned((5, 30), (38, 10), split_off::<C<u32, 40>>);
    q_pin_append_wide40 = || build::pinned((33, 22), (30, 30), append::<C<u32, 40>>);
    q_pin_drain_from_wide40 = || build::pinned((33, 22), (30, 14), drain_from::<C<u32, 40>>);
    q_pin_drain_from_wide40b = || build::pinned((5, 30), (38, 10), drain_from::<C<u32, 40>>);
    q_pin_from_part_wide40 = || build::pinned((33, 22), (30, 14), from_part::<C<u32, 40>>);
    q_pin_from_part_wide40b = || build::pinned((5, 30), (38, 10), from_part::<C<u32, 40>>);
    q_pin_insert_from_wide40 = || build::pinned((33, 22), (30, 14), insert_from::<C<Big, 40>>);
    q_pin_insert_from_wide40b = || build::pinned((5, 30), (38, 10), insert_from::<C<Big, 40>>);
    q_pin_extend_full_wide40 = || build::pinned((33, 40), (30, 40), extend_full::<C<u32, 40>>);
    q_pin_collect_short_wide40 = || build::pinned((33, 22), (30, 14), collect_short::<C<u8, 40>>);
    q_pin_collect_short_wide40b = || build::pinned((5, 30), (38, 10), collect_short::<C<u8, 40>>);
    q_pin_collect_long_wide40 = || build::pinned((33, 40), (30, 40), collect_long::<C<u8, 40>>);
    q_pin_insert_ordered_full_wide40 = || build::pinned((33, 40), (30, 40), insert_ordered_full::<C<u8, 40>>);
    q_push_full1 = push_full::<C<u8, 1>>;
    q_push_full4 = push_full::<C<u32, 4>>;
    q_insert4 = insert::<C<u32, 4>>;
    q_insert16 = insert::<C<u8, 16>>;
    q_remove4 = remove::<C<u32, 4>>;
    q_remove16 = remove::<C<u8, 16>>;
    q_index4 = index::<C<u32, 4>>;
    q_drop_side4 = drop_side::<C<u32, 4>>;
    q_drop_side16 = drop_side::<C<u8, 16>>;
    q_split_off4 = split_off::<C<u32, 4>>;
    q_split_off16 = split_off::<C<u8, 16>>;
    q_append4 = append::<C<u32, 4>>;
    q_append8 = append::<C<u8, 8>>;
    q_drain_from4 = drain_from::<C<u32, 4>>;
    q_drain_from8 = drain_from::<C<u8, 8>>;
    q_from_part4 = from_part::<C<u32, 4>>;
    q_from_part16 = from_part::<C<u8, 16>>;
    q_insert_from3 = insert_from::<C<Big, 3>>;
    q_insert_from5 = insert_from::<C<u8, 5>>;
    q_extend_full4 = extend_full::<C<u32, 4>>;
    q_extend_full8 = extend_full::<C<u8, 8>>;
    q_collect_short4 = collect_short::<C<u8, 4>>;
    q_collect_long4 = collect_long::<C<u8, 4>>;
    q_too_small1 = too_small::<C<u8, 1>>;
    q_insert_ordered_full4 = insert_ordered_full::<C<u8, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_insert64 = insert::<C<u8, 64>>;
    t_remove64 = remove::<C<u8, 64>>;
    t_drop_side64 = drop_side::<C<u8, 64>>;
    t_split_off64 = split_off::<C<u8, 64>>;
    t_drain_from16 = drain_from::<C<u8, 16>>;
    t_append32 = append::<C<u8, 32>>;
    t_insert_from16 = insert_from::<C<u8, 16>>;
    t_from_part64 = from_part::<C<u8, 64>>;
} }
