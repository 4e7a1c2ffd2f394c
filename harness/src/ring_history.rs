use crate::hist::*;
use crate::*;
use sized_chunks::RingBuffer as C;
harness! {
    q_any_then_one3 = any_then::<C<u8, 3>, u8, 3, 1>;
    q_any_then_two2 = any_then::<C<u8, 2>, u8, 2, 2>;
    q_any_then_two3 = any_then::<C<u8, 3>, u8, 3, 2>;
    q_new_then_three3 = new_then::<C<u8, 3>, u8, 3, 3>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_any_then_two4 = any_then::<C<u32, 4>, u32, 4, 2>;
    t_new_then_four3 = new_then::<C<u8, 3>, u8, 3, 4>;
    t_any_then_three3 = any_then::<C<u8, 3>, u8, 3, 3>;
    t_any_then_three4 = any_then::<C<u8, 4>, u8, 4, 3>;
    t_new_then_five3 = new_then::<C<u8, 3>, u8, 3, 5>;
    t_new_then_six3 = new_then::<C<u8, 3>, u8, 3, 6>;
    t_any_then_two8 = any_then::<C<u8, 8>, u8, 8, 2>;
} }
