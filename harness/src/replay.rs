//! Replays a recorded counterexample against the real code.
//! usage: replay HARNESS v1,v2,...      exit 0 ok, 3 property violated, 4 assumption not met
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
static mut INPUT: Vec<u64> = Vec::new();
static mut POS: usize = 0;
fn next() -> u64 { unsafe { let i = POS; POS += 1; let v = &*core::ptr::addr_of!(INPUT); if i < v.len() { v[i] } else { 0 } } }
#[no_mangle] pub extern "C" fn v_any_u8() -> u8 { next() as u8 }
#[no_mangle] pub extern "C" fn v_any_bool() -> bool { next() != 0 }
#[no_mangle] pub extern "C" fn v_any_u64() -> u64 { next() }
#[no_mangle] pub extern "C" fn v_any_below(n: usize) -> usize { let v = next() as usize; if n > 0 { assert!(v < n) }; v }
#[no_mangle] pub extern "C" fn v_assume(b: bool) { if !b { println!("ASSUMPTION-NOT-MET"); std::process::exit(4) } }
#[no_mangle] pub extern "C" fn v_check(b: bool, l: u32) { if !b { println!("CHECK-FAILED {}", l); std::process::exit(3) } }
#[no_mangle] pub extern "C" fn v_cover(_k: u32) {}
/// stand-ins for the C library's block copies that count
#[cfg(feature = "moves")]
mod moves {
    static mut MOVED: usize = 0;
    #[no_mangle] pub extern "C" fn v_moved() -> usize { unsafe { MOVED } }
    unsafe fn forward(d: *mut u8, s: *const u8, n: usize) { core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags)) }
    unsafe fn copy(d: *mut u8, s: *const u8, n: usize) {
        MOVED += n;
        if (d as usize).wrapping_sub(s as usize) >= n { forward(d, s, n) }
        else if n > 0 { core::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _, inout("rsi") s.add(n - 1) => _, options(nostack)) }
    }
    #[no_mangle] pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { copy(d, s, n); d }
    #[no_mangle] pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { copy(d, s, n); d }
}
/// requests for memory, counted
#[cfg(feature = "heap")]
mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    struct Counted;
    static mut N: usize = 0;
    #[no_mangle] pub extern "C" fn v_allocated() -> usize { unsafe { N } }
    unsafe impl GlobalAlloc for Counted {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { N += 1; System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator] static A: Counted = Counted;
}
struct Thrown;
#[no_mangle] pub extern "C-unwind" fn v_throw() -> ! { resume_unwind(Box::new(Thrown)) }
#[no_mangle] pub extern "C-unwind" fn v_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool { catch_unwind(AssertUnwindSafe(|| f(d))).is_err() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { eprintln!("panic: {}", i) }));
    if a.len() > 2 { unsafe { INPUT = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); } }
    let f = harness::lookup(&a[1]).expect("unknown harness");
    match catch_unwind(|| f()) {
        Ok(()) => println!("OK"),
        Err(_) => { println!("PANIC-ESCAPED"); std::process::exit(3) }
    }
}
