//! A sparse chunk is a map from positions to values.
use crate::sp::*;
use crate::*;
harness! {
    q_make4 = make::<u8, 4>;
    q_make16 = make::<u32, 16>;
    q_look4 = look::<u8, 4>;
    q_look9 = look::<u32, 9>;
    q_insert3 = insert::<Big, 3>;
    q_insert4 = insert::<u8, 4>;
    q_insert9 = insert::<u32, 9>;
    q_insert16 = insert::<u8, 16>;
    q_remove3 = remove::<Big, 3>;
    q_remove4 = remove::<u8, 4>;
    q_remove9 = remove::<u32, 9>;
    q_remove16 = remove::<u8, 16>;
    q_pop4 = pop::<u8, 4>;
    q_pop9 = pop::<u32, 9>;
    q_pop16 = pop::<u8, 16>;
    q_write4 = write::<u8, 4>;
    q_write9 = write::<u32, 9>;
    q_copy4 = copy::<Cl, 4>;
    q_copy9 = copy::<u32, 9>;
    q_large32 = large::<u8, 32, 3>;
    q_large64 = large::<u8, 64, 3>;
    q_large_two128 = large::<u8, 128, 2>;
    q_large_two200 = large::<u8, 200, 2>;
    q_wide_iter_mut300 = wide::sparse::<300, 1>;
    q_wide_entries300 = wide::sparse::<300, 3>;
    q_wide_drain300 = wide::sparse::<300, 4>;
    q_wide_pop300 = wide::sparse::<300, 5>;
    q_wide_look300 = wide::sparse::<300, 7>;
    q_history4 = history::<u8, 4, 3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_copy_made16 = copy::<Cl, 16>;
    t_insert32 = insert::<u8, 32>;
    t_remove32 = remove::<u8, 32>;
    t_pop32 = pop::<u8, 32>;
    t_insert64 = insert::<u8, 64>;
    t_remove64 = remove::<u8, 64>;
    t_look64 = look::<u8, 64>;
    t_large_four64 = large::<u8, 64, 4>;
    t_large128 = large::<u8, 128, 3>;
    t_large200 = large::<u8, 200, 3>;
    t_large_two1000 = large::<u8, 1000, 2>;
    t_history_five4 = history::<u8, 4, 5>;
    t_history8 = history::<u8, 8, 3>;
} }
