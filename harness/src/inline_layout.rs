//! Where an inline array keeps its elements, for a range of element and host types:
//! capacity as documented, everything inside the host's bytes, aligned, and
//! unharmed by moving the array about.
use crate::build::*;
use crate::ia::*;
use crate::sym::*;
use crate::*;
use core::mem::{align_of, size_of};
use sized_chunks::InlineArray as I;
const FILE: u32 = 1500000;

#[repr(align(32))]
#[derive(Clone, Copy)]
pub struct Al32(u32, u8);
impl Elem for Al32 { #[inline(always)] fn mk(v: u8) -> Al32 { Al32(v as u32 * 0x01010101, v) } #[inline(always)] fn id(&self) -> u8 { if self.1 as u32 * 0x01010101 == self.0 { self.1 } else { 0xee } } }
/// 3 bytes, alignment 1
#[derive(Clone, Copy)]
pub struct Odd([u8; 3]);
impl Elem for Odd { #[inline(always)] fn mk(v: u8) -> Odd { Odd([v, !v, v ^ 0x5a]) } #[inline(always)] fn id(&self) -> u8 { let v = self.0[0]; if self.0[1] == !v && self.0[2] == v ^ 0x5a { v } else { 0xee } } }
/// larger than the length word, less aligned, and no multiple of it
#[derive(Clone, Copy)]
pub struct Wide12([u8; 12]);
impl Elem for Wide12 { #[inline(always)] fn mk(v: u8) -> Wide12 { let mut r = [v; 12]; r[0] = !v; r[11] = v ^ 0x33; Wide12(r) } #[inline(always)] fn id(&self) -> u8 { let v = self.0[1]; let mut ok = self.0[0] == !v && self.0[11] == v ^ 0x33; for i in 1..11 { ok &= self.0[i] == v } if ok { v } else { 0xee } } }
#[derive(Clone, Copy)]
pub struct Wide10(u16, [u16; 4]);
impl Elem for Wide10 { #[inline(always)] fn mk(v: u8) -> Wide10 { Wide10(!(v as u16), [v as u16 * 0x101; 4]) } #[inline(always)] fn id(&self) -> u8 { let v = self.1[0] as u8; if self.0 == !(v as u16) && self.1 == [v as u16 * 0x101; 4] { v } else { 0xee } } }
/// 20 bytes, alignment 4
#[derive(Clone, Copy)]
pub struct Wide20(u8, [u32; 3], u8);
impl Elem for Wide20 { #[inline(always)] fn mk(v: u8) -> Wide20 { Wide20(v, [v as u32; 3], !v) } #[inline(always)] fn id(&self) -> u8 { if self.2 == !self.0 && self.1 == [self.0 as u32; 3] { self.0 } else { 0xee } } }
/// hosts with gaps between their fields
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Gaps(u8, u64, u16, u32, u64);
#[repr(C)]
pub struct Gaps2(u64, u8, u64, u32, u64, [u8; 9]);
#[repr(C, align(16))]
pub struct Host16(u8, u64, u64);

const fn documented<A, T>() -> usize {
    let al = if align_of::<T>() > align_of::<usize>() { align_of::<T>() } else { align_of::<usize>() };
    if size_of::<A>() == 0 { usize::MAX }
    else if align_of::<A>() > al || size_of::<T>() < size_of::<usize>() { 0 }
    else { (size_of::<T>() - size_of::<usize>()) / size_of::<A>() }
}
#[inline(never)]
fn passed<A, T>(c: I<A, T>) -> I<A, T> { c }

/// filled to any length, moved about, read back
fn hold<A: Elem + Copy, T>() {
    const { assert!(size_of::<A>() > 0) };
    let cap = documented::<A, T>();
    check!(I::<A, T>::CAPACITY == cap);
    let mut c: I<A, T> = I::new();
    check!(c.len() == 0 && c.is_empty() && c.is_full() == (cap == 0));
    let b = any_u8();
    let n = upto(cap);
    for i in 0..cap { if i < n { c.push(A::mk(b.wrapping_add(i as u8))) } }
    let al = if align_of::<T>() > 8 { align_of::<T>() } else { 8 };
    check!(align_of::<I<A, T>>() == al && size_of::<I<A, T>>() == (size_of::<T>() + al - 1) / al * al);
    let mut c = passed(c);
    check!(is(&c, n, |j| b.wrapping_add(j as u8)));
    // a second one, and the two trade places
    let mut d: I<A, T> = passed(I::new());
    if cap > 0 { d.push(A::mk(7)); }
    core::mem::swap(&mut c, &mut d);
    let d = passed(d);
    check!(is(&d, n, |j| b.wrapping_add(j as u8)));
    check!(is(&c, (cap > 0) as usize, |_| 7));
    // every element aligned and inside the array's own bytes
    let at = &d as *const I<A, T> as usize;
    check!(at % al == 0);
    let i = below(cap + 1);
    if i < n {
        let e = &d[i] as *const A as usize;
        check!(e % align_of::<A>() == 0);
        check!(e >= at && e - at + size_of::<A>() <= size_of::<T>());
    }
    // and it goes on working
    let mut two = [passed(c), passed(d)];
    if n > 0 {
        check!(match two[1].pop() { Some(v) => v.id() == b.wrapping_add(n as u8 - 1), None => false });
        two[0].clear();
        check!(is(&two[1], n - 1, |j| b.wrapping_add(j as u8)));
        check!(is(&two[0], 0, |_| 0));
    }
    if n < cap { check!(!two[1].is_full()) }
}
/// arrays that can hold nothing still answer everything
fn nothing<A: Elem + Copy, T>() {
    check!(documented::<A, T>() == 0 && I::<A, T>::CAPACITY == 0);
    let mut c: I<A, T> = I::new();
    check!(c.len() == 0 && c.is_empty() && c.is_full());
    check!(c.pop().is_none() && c.remove(any_usize()).is_none());
    check!(c.first().is_none() && c.get(any_usize()).is_none());
    check!(c[..].len() == 0 && c.iter().next().is_none());
    c.clear();
    let mut d = c.split_off(0);
    check!(d.is_empty() && d.drain().next().is_none());
    let i = any_usize();
    check!(panics(|| match below(4) { 0 => c.push(A::mk(1)), 1 => c.insert(i, A::mk(1)), 2 => { assume(i > 0); c.split_off(i); } _ => c.extend(Some(A::mk(1))) }));
    check!(c.len() == 0 && c[..].len() == d[..].len());
    let e = c.clone();
    check!(e.into_iter().next().is_none());
    let e: I<A, T> = None.into_iter().collect();
    check!(e.is_empty());
}
/// a host too small for the length word is refused
fn refused<A, T>() { check!(panics(|| { let _c: I<A, T> = I::new(); })); check!(panics(|| { let _c: I<A, T> = I::default(); })); }
/// elements without size: any number of them
fn sizeless<T>() {
    check!(I::<(), T>::CAPACITY == usize::MAX);
    let mut c: I<(), T> = I::new();
    let n = upto(5);
    for i in 0..5 { if i < n { c.push(()) } }
    let mut c = passed(c);
    check!(c.len() == n && c.is_empty() == (n == 0) && !c.is_full() && c[..].len() == n);
    let i = any_usize();
    check!(c.get(i).is_some() == (i < n));
    check!(c.remove(i).is_some() == (i < n));
    let n = if i < n { n - 1 } else { n };
    check!(c.len() == n);
    c.insert(n, ());
    check!(c.len() == n + 1);
    let k = upto(5);
    assume(k <= n + 1);
    let d = c.split_off(k);
    check!(c.len() == k && d.len() == n + 1 - k);
    let mut m = 0;
    for _ in d { m += 1 }
    check!(m == n + 1 - k);
    check!(c.pop().is_some() == (k > 0));
    c.clear();
    check!(c.len() == 0);
}
type U = u64;
harness! {
    q_bytes1 = hold::<u8, [u8; 9]>;
    q_bytes4 = hold::<u8, [u8; 12]>;
    q_bytes8 = hold::<u8, [U; 2]>;
    q_bytes_u16_3 = hold::<u8, [u16; 5]>;
    q_shorts3 = hold::<u16, [u8; 15]>;
    q_words1 = hold::<u32, [u8; 15]>;
    q_words4 = hold::<u32, [u32; 6]>;
    q_longs1 = hold::<U, [u16; 9]>;
    q_longs3 = hold::<U, [u8; 33]>;
    q_odd2 = hold::<Odd, [U; 2]>;
    q_odd3 = hold::<Odd, [u8; 19]>;
    q_wide12_3 = hold::<Wide12, [U; 6]>;
    q_wide12_1 = hold::<Wide12, [u8; 21]>;
    q_wide10_2 = hold::<Wide10, [U; 4]>;
    q_wide10_3 = hold::<Wide10, [u16; 20]>;
    q_wide20_1 = hold::<Wide20, [u32; 8]>;
    q_wide20_2 = hold::<Wide20, Gaps2>;
    q_big2 = hold::<Big, [u8; 60]>;
    q_al16_1 = hold::<Al16, [Al16; 2]>;
    q_al16_3 = hold::<Al16, [Al32; 2]>;
    q_al32_1 = hold::<Al32, [Al32; 2]>;
    q_al32_2 = hold::<Al32, [Al32; 3]>;
    q_u64_in_al32_3 = hold::<U, [Al32; 1]>;
    q_u128_2 = hold::<u128, [u128; 3]>;
    q_pair_u8_u64_8 = hold::<u8, (u8, u64)>;
    q_pair_u64_u8_8 = hold::<u8, (u64, u8)>;
    q_pair_u64_u32_4 = hold::<u16, (u64, u32)>;
    q_pair_u32_u8_u64 = hold::<u8, (u32, u8, u64)>;
    q_gaps6 = hold::<u32, Gaps>;
    q_gaps3 = hold::<U, Gaps>;
    q_host16_1 = hold::<Al16, Host16>;
    q_host16_3 = hold::<U, Host16>;
    q_enum8 = hold::<u8, Option<u64>>;
    q_bool_pair8 = hold::<u8, (bool, u64)>;
    q_ref_pair8 = hold::<u16, (&'static u8, bool)>;
    q_none_align0 = nothing::<Al16, [U; 8]>;
    q_none_align32 = nothing::<Al32, [Al16; 8]>;
    q_none_small0 = nothing::<U, [u8; 15]>;
    q_none_host0 = nothing::<Al16, [Al16; 1]>;
    q_none_big0 = nothing::<Big, [U; 3]>;
    q_none_exact0 = nothing::<u8, U>;
    q_none_exact_usize0 = nothing::<u32, usize>;
    q_refused7 = refused::<u8, [u8; 7]>;
    q_refused4 = refused::<u8, u32>;
    q_refused0 = refused::<u32, ()>;
    q_sizeless2 = sizeless::<[U; 2]>;
    q_sizeless1 = sizeless::<[u8; 9]>;
    q_sizeless_al16 = sizeless::<Al16>;
}
impl Elem for u128 { #[inline(always)] fn mk(v: u8) -> u128 { v as u128 * 0x01010101010101010101010101010101 } #[inline(always)] fn id(&self) -> u8 { let l = *self as u64; if (*self >> 64) as u64 == l && l as u8 as u64 * 0x0101010101010101 == l { l as u8 } else { 0xee } } }
#[cfg(feature = "thorough")]
pub mod deep { use super::*; harness! {
    t_bytes56 = hold::<u8, [U; 8]>;
    t_odd18 = hold::<Odd, [U; 8]>;
    t_words30 = hold::<u32, [u32; 32]>;
    t_shorts12 = hold::<u16, Gaps>;
} }
