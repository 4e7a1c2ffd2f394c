use crate::own::*;
use crate::sym::Tok;
use crate::*;
use sized_chunks::Chunk as C;
harness! {
    q_pin_just_drop_wide40 = || build::pinned((9, 22), (3, 14), just_drop::<C<Tok, 40>>);
    q_pin_just_drop_wide40b = || build::pinned((25, 15), (28, 12), just_drop::<C<Tok, 40>>);
    q_pin_push_wide40 = || build::pinned((9, 22), (3, 14), push::<C<Tok, 40>>);
    q_pin_push_wide40b = || build::pinned((25, 15), (28, 12), push::<C<Tok, 40>>);
    q_pin_pop_wide40 = || build::pinned((9, 22), (3, 14), pop::<C<Tok, 40>>);
    q_pin_pop_wide40b = || build::pinned((25, 15), (28, 12), pop::<C<Tok, 40>>);
    q_pin_insert_wide40 = || build::pinned((9, 22), (3, 14), insert::<C<Tok, 40>>);
    q_pin_insert_wide40b = || build::pinned((25, 15), (28, 12), insert::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40 = || build::pinned((9, 22), (3, 14), insert_ordered::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40b = || build::pinned((25, 15), (28, 12), insert_ordered::<C<Tok, 40>>);
    q_pin_remove_wide40 = || build::pinned((9, 22), (3, 14), remove::<C<Tok, 40>>);
    q_pin_remove_wide40b = || build::pinned((25, 15), (28, 12), remove::<C<Tok, 40>>);
    q_pin_set_wide40 = || build::pinned((9, 22), (3, 14), set::<C<Tok, 40>>);
    q_pin_set_wide40b = || build::pinned((25, 15), (28, 12), set::<C<Tok, 40>>);
    q_pin_drop_side_wide40 = || build::pinned((9, 22), (3, 14), drop_side::<C<Tok, 40>>);
    q_pin_drop_side_wide40b = || build::pinned((25, 15), (28, 12), drop_side::<C<Tok, 40>>);
    q_pin_clear_wide40 = || build::pinned((9, 22), (3, 14), clear::<C<Tok, 40>>);
    q_pin_clear_wide40b = || build::pinned((25, 15), (28, 12), clear::<C<Tok, 40>>);
    q_pin_split_off_wide40 = || build::pinned((9, 22), (3, 14), split_off::<C<Tok, 40>>);
    q_pin_split_off_wide40b = || build::pinned((25, 15), (28, 12), split_off::<C<Tok, 40>>);
    q_pin_transfer_wide40 = || build::pinned((9, 22), (3, 14), transfer::<C<Tok, 40>>);
    q_pin_transfer_wide40b = || build::pinned((25, 15), (28, 12), transfer::<C<Tok, 40>>);
    q_pin_from_part_wide40 = || build::pinned((9, 22), (3, 14), from_part::<C<Tok, 40>>);
    q_pin_from_part_wide40b = || build::pinned((25, 15), (28, 12), from_part::<C<Tok, 40>>);
    q_pin_insert_from_wide17 = || build::pinned((4, 9), (2, 6), insert_from::<C<Tok, 17>>);
    q_pin_extend_wide40 = || build::pinned((9, 22), (3, 14), extend::<C<Tok, 40>>);
    q_pin_extend_wide40b = || build::pinned((25, 15), (28, 12), extend::<C<Tok, 40>>);
    q_pin_refused_wide40 = || build::pinned((9, 22), (3, 14), refused::<C<Tok, 40>>);
    q_pin_refused_wide40b = || build::pinned((25, 15), (28, 12), refused::<C<Tok, 40>>);
    q_pin_overflow_wide40 = || build::pinned((0, 40), (0, 40), overflow::<C<Tok, 40>>);
    q_pin_consume_wide17 = || build::pinned((4, 9), (2, 6), consume::<C<Tok, 17>>);
    q_pin_drain_wide17 = || build::pinned((4, 9), (2, 6), drain::<C<Tok, 17>>);
    q_pin_clone_wide40 = || build::pinned((9, 22), (3, 14), clone::<C<Tok, 40>>);
    q_pin_clone_wide40b = || build::pinned((25, 15), (28, 12), clone::<C<Tok, 40>>);
    q_wide_own0 = wide::c::owned::<70, 9, 50, 0>;
    q_wide_own1 = wide::c::owned::<70, 9, 50, 1>;
    q_wide_own2 = wide::c::owned::<70, 9, 50, 2>;
    q_wide_own3 = wide::c::owned::<70, 9, 50, 3>;
    q_wide_own4 = wide::c::owned::<70, 9, 50, 4>;
    q_wide_own5 = wide::c::owned::<70, 9, 50, 5>;
    q_wide_own6 = wide::c::owned::<70, 9, 50, 6>;
    q_wide_own7 = wide::c::owned::<70, 9, 50, 7>;
    q_wide_own8 = wide::c::owned::<70, 9, 50, 8>;
    q_wide_own9 = wide::c::owned::<70, 9, 50, 9>;
    q_wide_own10 = wide::c::owned::<70, 9, 50, 10>;
    q_just_drop4 = just_drop::<C<Tok, 4>>;
    q_just_drop16 = just_drop::<C<Tok, 16>>;
    q_push4 = push::<C<Tok, 4>>;
    q_push8 = push::<C<Tok, 8>>;
    q_pop4 = pop::<C<Tok, 4>>;
    q_insert4 = insert::<C<Tok, 4>>;
    q_insert7 = insert::<C<Tok, 7>>;
    q_insert_ordered4 = insert_ordered::<C<Tok, 4>>;
    q_remove4 = remove::<C<Tok, 4>>;
    q_remove8 = remove::<C<Tok, 8>>;
    q_set4 = set::<C<Tok, 4>>;
    q_drop_side4 = drop_side::<C<Tok, 4>>;
    q_drop_side8 = drop_side::<C<Tok, 8>>;
    q_clear4 = clear::<C<Tok, 4>>;
    q_split_off4 = split_off::<C<Tok, 4>>;
    q_split_off8 = split_off::<C<Tok, 8>>;
    q_transfer3 = transfer::<C<Tok, 3>>;
    q_transfer5 = transfer::<C<Tok, 5>>;
    q_from_part4 = from_part::<C<Tok, 4>>;
    q_from_part8 = from_part::<C<Tok, 8>>;
    q_insert_from3 = insert_from::<C<Tok, 3>>;
    q_insert_from5 = insert_from::<C<Tok, 5>>;
    q_extend4 = extend::<C<Tok, 4>>;
    q_refused3 = refused::<C<Tok, 3>>;
    q_overflow4 = overflow::<C<Tok, 4>>;
    q_consume4 = consume::<C<Tok, 4>>;
    q_drain4 = drain::<C<Tok, 4>>;
    q_clone4 = clone::<C<Tok, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_just_drop64 = just_drop::<C<Tok, 64>>;
    t_insert16 = insert::<C<Tok, 16>>;
    t_remove16 = remove::<C<Tok, 16>>;
    t_drop_side16 = drop_side::<C<Tok, 16>>;
    t_transfer8 = transfer::<C<Tok, 8>>;
    t_from_part16 = from_part::<C<Tok, 16>>;
    t_split_off16 = split_off::<C<Tok, 16>>;
    t_insert_from8 = insert_from::<C<Tok, 8>>;
    t_extend8 = extend::<C<Tok, 8>>;
    t_refused5 = refused::<C<Tok, 5>>;
    t_consume6 = consume::<C<Tok, 6>>;
    t_drain6 = drain::<C<Tok, 6>>;
    t_clone8 = clone::<C<Tok, 8>>;
} }
