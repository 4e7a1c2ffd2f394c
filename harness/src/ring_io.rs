use crate::io::*;
use crate::*;
use sized_chunks::RingBuffer as T;
harness! {
    q_pin_write_wide40 = || build::pinned((33, 22), (30, 14), write::<T<u8, 40>, 42>);
    q_pin_write_wide40b = || build::pinned((5, 30), (38, 10), write::<T<u8, 40>, 42>);
    q_pin_read_wide40 = || build::pinned((33, 22), (30, 14), read::<T<u8, 40>, 42>);
    q_pin_read_wide40b = || build::pinned((5, 30), (38, 10), read::<T<u8, 40>, 42>);
    q_pin_write_ways_wide40 = || build::pinned((33, 22), (30, 14), write_ways::<T<u8, 40>, 42>);
    q_pin_write_ways_wide40b = || build::pinned((5, 30), (38, 10), write_ways::<T<u8, 40>, 42>);
    q_pin_read_ways_wide40 = || build::pinned((33, 22), (30, 14), read_ways::<T<u8, 40>, 42>);
    q_pin_read_ways_wide40b = || build::pinned((5, 30), (38, 10), read_ways::<T<u8, 40>, 42>);
    q_pin_pipe_wide40 = || build::pinned((33, 22), (30, 14), pipe::<T<u8, 40>, 41, 2>);
    q_pin_pipe_wide40b = || build::pinned((5, 30), (38, 10), pipe::<T<u8, 40>, 41, 2>);
    q_pin_long_wide40 = || build::pinned((33, 40), (30, 40), long::<T<u8, 40>>);
    q_write4 = write::<T<u8, 4>, 6>;
    q_write8 = write::<T<u8, 8>, 10>;
    q_write1 = write::<T<u8, 1>, 3>;
    q_read4 = read::<T<u8, 4>, 6>;
    q_read8 = read::<T<u8, 8>, 10>;
    q_read1 = read::<T<u8, 1>, 3>;
    q_write_ways4 = write_ways::<T<u8, 4>, 6>;
    q_read_ways4 = read_ways::<T<u8, 4>, 6>;
    q_read_all3 = read_all::<T<u8, 3>>;
    q_pipe3 = pipe::<T<u8, 3>, 4, 2>;
    q_pipe5 = pipe::<T<u8, 5>, 6, 2>;
    q_long3 = long::<T<u8, 3>>;
}
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_write16 = write::<T<u8, 16>, 20>;
    t_read16 = read::<T<u8, 16>, 20>;
    t_write32 = write::<T<u8, 32>, 12>;
    t_write_ways8 = write_ways::<T<u8, 8>, 10>;
    t_read_ways8 = read_ways::<T<u8, 8>, 10>;
    t_pipe4 = pipe::<T<u8, 4>, 5, 3>;
    t_pipe3 = pipe::<T<u8, 3>, 4, 4>;
    t_pipe8 = pipe::<T<u8, 8>, 9, 2>;
} }
