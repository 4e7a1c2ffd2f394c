use crate::bulk::*;
use crate::*;
use sized_chunks::RingBuffer as C;
harness! {
    q_wide_bulk0 = wide::r::bulk::<u16, 300, 250, 200, 0>;
    q_wide_big0 = wide::r::bulk::<wide::B3, 40, 33, 26, 0>;
    q_wide_bulk1 = wide::r::bulk::<u16, 70, 58, 50, 1>;
    q_wide_big1 = wide::r::bulk::<wide::B3, 40, 33, 26, 1>;
    q_wide_bulk2 = wide::r::bulk::<u16, 300, 250, 200, 2>;
    q_wide_big2 = wide::r::bulk::<wide::B3, 40, 33, 26, 2>;
    q_wide_bulk3 = wide::r::bulk::<u16, 300, 250, 200, 3>;
    q_wide_big3 = wide::r::bulk::<wide::B3, 40, 33, 26, 3>;
    q_wide_bulk4 = wide::r::bulk::<u16, 300, 250, 200, 4>;
    q_wide_big4 = wide::r::bulk::<wide::B3, 40, 33, 26, 4>;
    q_wide_bulk5 = wide::r::bulk::<u16, 300, 250, 200, 5>;
    q_wide_big5 = wide::r::bulk::<wide::B3, 40, 33, 26, 5>;
    q_wide_bulk6 = wide::r::bulk::<u16, 300, 250, 200, 6>;
    q_wide_big6 = wide::r::bulk::<wide::B3, 40, 33, 26, 6>;
    q_wide_bulk7 = wide::r::bulk::<u16, 70, 58, 50, 7>;
    q_wide_big7 = wide::r::bulk::<wide::B3, 40, 33, 26, 7>;
    q_wide_bulk8 = wide::r::bulk::<u16, 300, 250, 200, 8>;
    q_wide_big8 = wide::r::bulk::<wide::B3, 40, 33, 26, 8>;
    q_wide_bulk9 = wide::r::bulk::<u16, 300, 250, 200, 9>;
    q_wide_big9 = wide::r::bulk::<wide::B3, 40, 33, 26, 9>;
    q_wide_bulk10 = wide::r::bulk::<u16, 300, 250, 200, 10>;
    q_wide_big10 = wide::r::bulk::<wide::B3, 40, 33, 26, 10>;
    q_wide_bulk11 = wide::r::bulk::<u16, 300, 250, 200, 11>;
    q_wide_big11 = wide::r::bulk::<wide::B3, 40, 33, 26, 11>;
    q_wide_bulk12 = wide::r::bulk::<u16, 300, 250, 200, 12>;
    q_wide_big12 = wide::r::bulk::<wide::B3, 40, 33, 26, 12>;
    q_append4 = append::<C<u8, 4>>;
    q_append5 = append::<C<u32, 5>>;
    q_append8 = append::<C<u8, 8>>;
    q_drain_from_front3 = drain_from_front::<C<Big, 3>>;
    q_drain_from_front5 = drain_from_front::<C<u32, 5>>;
    q_drain_from_front8 = drain_from_front::<C<u8, 8>>;
    q_drain_from_back3 = drain_from_back::<C<Big, 3>>;
    q_drain_from_back5 = drain_from_back::<C<u32, 5>>;
    q_drain_from_back8 = drain_from_back::<C<u8, 8>>;
    q_drain_from4 = drain_from::<C<u32, 4>>;
    q_drain_from16 = drain_from::<C<u8, 16>>;
    q_from_front4 = from_front::<C<u32, 4>>;
    q_from_front16 = from_front::<C<u8, 16>>;
    q_from_back4 = from_back::<C<u32, 4>>;
    q_from_back16 = from_back::<C<u8, 16>>;
    q_split_off4 = split_off::<C<u32, 4>>;
    q_split_off16 = split_off::<C<u8, 16>>;
    q_insert_from3 = insert_from::<C<Big, 3>>;
    q_insert_from5 = insert_from::<C<u32, 5>>;
    q_insert_from8 = insert_from::<C<u8, 8>>;
    q_extend5 = extend::<C<u32, 5>>;
    q_extend8 = extend::<C<u8, 8>>;
    q_extend_refs4 = extend_refs::<C<Cl, 4>, Cl>;
    q_extend_refs3 = extend_refs::<C<Big, 3>, Big>;
    q_from_iter5 = from_iter::<C<u32, 5>>;
    q_from_iter16 = from_iter::<C<u8, 16>>;
    q_collect_from5 = collect_from::<C<u32, 5>>;
    q_after4 = after::<C<u8, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_append16 = append::<C<u8, 16>>;
    t_drain_from_front16 = drain_from_front::<C<u8, 16>>;
    t_drain_from_back16 = drain_from_back::<C<u8, 16>>;
    t_append32 = append::<C<u8, 32>>;
    t_split_off64 = split_off::<C<u32, 64>>;
    t_from_front64 = from_front::<C<u8, 64>>;
    t_from_back64 = from_back::<C<u8, 64>>;
    t_insert_from16 = insert_from::<C<u8, 16>>;
    t_extend24 = extend::<C<u8, 24>>;
    t_collect_from64 = collect_from::<C<u8, 64>>;
    t_after8 = after::<C<u8, 8>>;
} }
