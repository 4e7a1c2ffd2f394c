//! Iterating a ring buffer.
use crate::walk::*;
use crate::*;
use sized_chunks::RingBuffer as Q;
harness! {
    q_pin_iter_wide17 = || build::pinned((14, 9), (13, 6), iter::<Q<Big, 17>>);
    q_pin_iter_mut_wide17 = || build::pinned((14, 9), (13, 6), iter_mut::<Q<Big, 17>>);
    q_pin_held_wide40 = || build::pinned((33, 22), (30, 14), held::<Q<u32, 40>>);
    q_pin_held_wide40b = || build::pinned((5, 30), (38, 10), held::<Q<u32, 40>>);
    q_pin_owned_wide17 = || build::pinned((14, 9), (13, 6), owned::<Q<Big, 17>>);
    q_pin_drain_wide17 = || build::pinned((14, 9), (13, 6), drain::<Q<Big, 17>>);
    q_pin_derived_wide40 = || build::pinned((33, 22), (30, 14), derived::<Q<u32, 40>>);
    q_pin_derived_wide40b = || build::pinned((5, 30), (38, 10), derived::<Q<u32, 40>>);
    q_pin_ends_wide40 = || build::pinned((33, 22), (30, 14), ends::<Q<u32, 40>>);
    q_pin_ends_wide40b = || build::pinned((5, 30), (38, 10), ends::<Q<u32, 40>>);
    q_pin_skips_wide17 = || build::pinned((14, 9), (13, 6), skips::<Q<u8, 17>>);
    q_wide_skip0 = wide::r::skipped::<300, 250, 200, 0>;
    q_wide_skip1 = wide::r::skipped::<300, 250, 200, 1>;
    q_wide_skip2 = wide::r::skipped::<300, 250, 200, 2>;
    q_wide_skip3 = wide::r::skipped::<300, 250, 200, 3>;
    q_iter3 = iter::<Q<Big, 3>>;
    q_iter5 = iter::<Q<u32, 5>>;
    q_iter_mut3 = iter_mut::<Q<Big, 3>>;
    q_iter_mut4 = iter_mut::<Q<u32, 4>>;
    q_held4 = held::<Q<u32, 4>>;
    q_owned3 = owned::<Q<Big, 3>>;
    q_owned5 = owned::<Q<u8, 5>>;
    q_drain3 = drain::<Q<Big, 3>>;
    q_drain5 = drain::<Q<u8, 5>>;
    q_derived4 = derived::<Q<u32, 4>>;
    q_ends7 = ends::<Q<u32, 7>>;
    q_ends32 = ends::<Q<u8, 32>>;
    q_ends64 = ends::<Q<u8, 64>>;
    q_skips3 = skips::<Q<u8, 3>>;
    q_skips5 = skips::<Q<u32, 5>>;
    q_derived8 = derived::<Q<u8, 8>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_iter8 = iter::<Q<u8, 8>>;
    t_iter_mut8 = iter_mut::<Q<u8, 8>>;
    t_owned8 = owned::<Q<u8, 8>>;
    t_drain8 = drain::<Q<u8, 8>>;
    t_held16 = held::<Q<u8, 16>>;
    t_skips8 = skips::<Q<u8, 8>>;
    t_derived16 = derived::<Q<u8, 16>>;
} }
