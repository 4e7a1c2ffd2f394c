use crate::liar::*;
use crate::build::Own;
use crate::sym::Tok;
use crate::*;
use sized_chunks::RingBuffer as C;
harness! {
    q_pin_insert_from_wide20 = || build::pinned((16, 6), (15, 6), insert_from::<C<Tok, 20>>);
    q_pin_insert_from_plain_wide20 = || build::pinned((16, 6), (15, 6), insert_from_plain::<C<u32, 20>>);
    q_pin_insert_from_once_wide20 = || build::pinned((16, 6), (15, 6), insert_from_plain::<C<Own, 20>>);
    q_pin_extend_wide40 = || build::pinned((33, 22), (30, 14), extend::<C<Tok, 40>>);
    q_pin_extend_wide40b = || build::pinned((5, 30), (38, 10), extend::<C<Tok, 40>>);
    q_pin_build_wide40 = || build::pinned((33, 22), (30, 14), build::<C<Tok, 40>>);
    q_pin_build_wide40b = || build::pinned((5, 30), (38, 10), build::<C<Tok, 40>>);
    q_insert_from2 = insert_from::<C<Tok, 2>>;
    q_insert_from3 = insert_from::<C<Tok, 3>>;
    q_insert_from4 = insert_from::<C<Tok, 4>>;
    q_insert_from_plain3 = insert_from_plain::<C<u32, 3>>;
    q_insert_from_plain5 = insert_from_plain::<C<u8, 5>>;
    q_insert_from_once4 = insert_from_plain::<C<Own, 4>>;
    q_insert_from_once8 = insert_from_plain::<C<Own, 8>>;
    q_extend4 = extend::<C<Tok, 4>>;
    q_extend_refs5 = extend_refs::<C<u8, 5>>;
    q_build4 = build::<C<Tok, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_insert_from6 = insert_from::<C<Tok, 6>>;
    t_insert_from_plain8 = insert_from_plain::<C<u8, 8>>;
    t_insert_from_plain12 = insert_from_plain::<C<u8, 12>>;
    t_extend6 = extend::<C<Tok, 6>>;
    t_build8 = build::<C<Tok, 8>>;
} }
