use crate::unwind::*;
use crate::build::Own;
use crate::sym::Tok;
use crate::*;
use sized_chunks::Chunk as C;
harness! {
    q_pin_drop_left_wide40 = || build::pinned((9, 22), (3, 14), drop_left::<C<Tok, 40>>);
    q_pin_drop_left_wide40b = || build::pinned((25, 15), (28, 12), drop_left::<C<Tok, 40>>);
    q_pin_drop_right_wide40 = || build::pinned((9, 22), (3, 14), drop_right::<C<Tok, 40>>);
    q_pin_drop_right_wide40b = || build::pinned((25, 15), (28, 12), drop_right::<C<Tok, 40>>);
    q_pin_clear_wide40 = || build::pinned((9, 22), (3, 14), clear::<C<Tok, 40>>);
    q_pin_clear_wide40b = || build::pinned((25, 15), (28, 12), clear::<C<Tok, 40>>);
    q_pin_just_drop_wide40 = || build::pinned((9, 22), (3, 14), just_drop::<C<Tok, 40>>);
    q_pin_just_drop_wide40b = || build::pinned((25, 15), (28, 12), just_drop::<C<Tok, 40>>);
    q_pin_assign_wide40 = || build::pinned((9, 22), (3, 14), assign::<C<Tok, 40>>);
    q_pin_assign_wide40b = || build::pinned((25, 15), (28, 12), assign::<C<Tok, 40>>);
    q_pin_consume_wide17 = || build::pinned((4, 9), (2, 6), consume::<C<Tok, 17>>);
    q_pin_clone_wide40 = || build::pinned((9, 22), (3, 14), clone::<C<Tok, 40>>);
    q_pin_clone_wide40b = || build::pinned((25, 15), (28, 12), clone::<C<Tok, 40>>);
    q_pin_clone_from_wide40 = || build::pinned((9, 22), (3, 14), clone_from::<C<Tok, 40>>);
    q_pin_clone_from_wide40b = || build::pinned((25, 15), (28, 12), clone_from::<C<Tok, 40>>);
    q_pin_each_wide40 = || build::pinned((9, 22), (3, 14), each::<C<Tok, 40>>);
    q_pin_each_wide40b = || build::pinned((25, 15), (28, 12), each::<C<Tok, 40>>);
    q_pin_skip_wide17 = || build::pinned((4, 9), (2, 6), skip::<C<Tok, 17>>);
    q_pin_compare_wide40 = || build::pinned((9, 22), (3, 14), compare::<C<Tok, 40>>);
    q_pin_compare_wide40b = || build::pinned((25, 15), (28, 12), compare::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40 = || build::pinned((9, 22), (3, 14), insert_ordered::<C<Tok, 40>>);
    q_pin_insert_ordered_wide40b = || build::pinned((25, 15), (28, 12), insert_ordered::<C<Tok, 40>>);
    q_pin_extend_wide40 = || build::pinned((9, 22), (3, 14), extend::<C<Tok, 40>>);
    q_pin_extend_wide40b = || build::pinned((25, 15), (28, 12), extend::<C<Tok, 40>>);
    q_pin_insert_from_wide17 = || build::pinned((4, 9), (2, 6), insert_from::<C<Tok, 17>>);
    q_pin_insert_from_once_wide17 = || build::pinned((4, 9), (2, 6), insert_from_plain::<C<Own, 17>>);
    q_pin_extend_once_wide40 = || build::pinned((9, 22), (3, 14), extend_plain::<C<Own, 40>>);
    q_pin_extend_once_wide40b = || build::pinned((25, 15), (28, 12), extend_plain::<C<Own, 40>>);
    q_pin_insert_ordered_once_wide40 = || build::pinned((9, 22), (3, 14), insert_ordered_plain::<C<Shy, 40>>);
    q_pin_insert_ordered_once_wide40b = || build::pinned((25, 15), (28, 12), insert_ordered_plain::<C<Shy, 40>>);
    q_pin_build_wide40 = || build::pinned((9, 22), (3, 14), build::<C<Tok, 40>>);
    q_pin_build_wide40b = || build::pinned((25, 15), (28, 12), build::<C<Tok, 40>>);
    q_drop_left3 = drop_left::<C<Tok, 3>>;
    q_drop_left5 = drop_left::<C<Tok, 5>>;
    q_drop_right3 = drop_right::<C<Tok, 3>>;
    q_drop_right5 = drop_right::<C<Tok, 5>>;
    q_clear3 = clear::<C<Tok, 3>>;
    q_clear5 = clear::<C<Tok, 5>>;
    q_just_drop4 = just_drop::<C<Tok, 4>>;
    q_assign3 = assign::<C<Tok, 3>>;
    q_consume3 = consume::<C<Tok, 3>>;
    q_clone4 = clone::<C<Tok, 4>>;
    q_clone_from3 = clone_from::<C<Tok, 3>>;
    q_each4 = each::<C<Tok, 4>>;
    q_skip4 = skip::<C<Tok, 4>>;
    q_compare3 = compare::<C<Tok, 3>>;
    q_insert_ordered4 = insert_ordered::<C<Tok, 4>>;
    q_extend4 = extend::<C<Tok, 4>>;
    q_insert_from3 = insert_from::<C<Tok, 3>>;
    q_insert_from4 = insert_from::<C<Tok, 4>>;
    q_insert_from_once4 = insert_from_plain::<C<Own, 4>>;
    q_insert_from_once7 = insert_from_plain::<C<Own, 7>>;
    q_extend_once4 = extend_plain::<C<Own, 4>>;
    q_insert_ordered_once4 = insert_ordered_plain::<C<Shy, 4>>;
    q_build4 = build::<C<Tok, 4>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_drop_left8 = drop_left::<C<Tok, 8>>;
    t_drop_right8 = drop_right::<C<Tok, 8>>;
    t_clear8 = clear::<C<Tok, 8>>;
    t_just_drop12 = just_drop::<C<Tok, 12>>;
    t_consume5 = consume::<C<Tok, 5>>;
    t_clone_from5 = clone_from::<C<Tok, 5>>;
    t_each6 = each::<C<Tok, 6>>;
    t_skip6 = skip::<C<Tok, 6>>;
    t_compare5 = compare::<C<Tok, 5>>;
    t_clone8 = clone::<C<Tok, 8>>;
    t_insert_ordered8 = insert_ordered::<C<Tok, 8>>;
    t_extend8 = extend::<C<Tok, 8>>;
    t_insert_from6 = insert_from::<C<Tok, 6>>;
    t_build12 = build::<C<Tok, 12>>;
} }
