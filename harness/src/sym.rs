//! The interface between harnesses and the symbolic executor (or, in the
//! replay binary, a recorded counterexample).
#![allow(dead_code)]

extern "C" {
    fn v_any_u8() -> u8;
    fn v_any_bool() -> bool;
    fn v_any_u64() -> u64;
    fn v_any_below(n: usize) -> usize;
    fn v_assume(b: bool);
    fn v_check(b: bool, l: u32);
    fn v_cover(k: u32);
    #[cfg(feature = "moves")]
    fn v_moved() -> usize;
    fn v_allocated() -> usize;
}
extern "C-unwind" {
    fn v_throw() -> !;
    fn v_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
}

pub fn any_u8() -> u8 { unsafe { v_any_u8() } }
pub fn any_bool() -> bool { unsafe { v_any_bool() } }
pub fn any_usize() -> usize { unsafe { v_any_u64() as usize } }
/// any value in 0..n (n constant)
#[inline(always)]
pub fn below(n: usize) -> usize { unsafe { v_any_below(n) } }
/// any value in 0..=n (n constant)
#[inline(always)]
pub fn upto(n: usize) -> usize { below(n + 1) }
pub fn assume(b: bool) { unsafe { v_assume(b) } }
#[inline(always)]
pub fn check_at(b: bool, l: u32) { unsafe { v_check(b, l) } }
#[inline(always)]
pub fn cover_at(k: u32) { unsafe { v_cover(k) } }
/// bytes moved so far by block copies
#[cfg(feature = "moves")]
#[inline(always)]
pub fn moved() -> usize { unsafe { v_moved() } }
#[cfg(feature = "heap")]
#[inline(always)]
pub fn allocated() -> usize { unsafe { v_allocated() } }
/// unwinds, as a panicking user callback would
pub fn throw() -> ! { unsafe { v_throw() } }

extern "C-unwind" fn tramp<F: FnOnce()>(d: *mut u8) {
    unsafe { (*(d as *mut Option<F>)).take().unwrap_unchecked()() }
}
/// runs f; true if it panicked
pub fn panics<F: FnOnce()>(f: F) -> bool {
    let mut o = Some(f);
    unsafe { v_try(tramp::<F>, &mut o as *mut Option<F> as *mut u8) }
}

#[macro_export]
macro_rules! check { ($e:expr) => { $crate::sym::check_at($e, FILE + line!()) } }
/// the point must be reachable (vacuity guard)
#[macro_export]
macro_rules! cover { () => { $crate::sym::cover_at(FILE + line!()) }; ($e:expr) => { if $e { $crate::sym::cover_at(FILE + line!()) } } }

#[macro_export]
macro_rules! harness {
    ($($n:ident = $f:expr;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $n() { ($f)() })*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    }
}

// ------------------------------------------------------------ ownership ledger
/// One byte of identity plus a Drop implementation that reports to the ledger.
#[derive(Debug)]
pub struct Tok(pub u8);

pub struct Ledger {
    /// the token whose releases are counted (symbolic: stands for every token)
    pub watch: u8,
    pub drops: u8,
    /// token whose drop panics (once), when armed
    pub bomb: u8,
    pub armed: bool,
    /// clone/eq/cmp/next callbacks count down and panic at zero
    pub fuse: u8,
    pub lit: bool,
    /// added to the identity of a token by Clone
    pub clone_bias: u8,
}
pub static mut L: Ledger = Ledger { watch: 255, drops: 0, bomb: 255, armed: false, fuse: 0, lit: false, clone_bias: 0 };

pub fn ledger() -> &'static mut Ledger { unsafe { &mut *core::ptr::addr_of_mut!(L) } }
/// counts releases of token t from here on
pub fn watch(t: u8) { let l = ledger(); l.watch = t; l.drops = 0; }
pub fn drops() -> u8 { ledger().drops }
pub fn arm(t: u8) { let l = ledger(); l.bomb = t; l.armed = true; }
pub fn light(n: u8) { let l = ledger(); l.fuse = n; l.lit = true; }
pub fn unlight() -> bool { let l = ledger(); let r = !l.lit; l.lit = false; r }
#[inline(always)]
pub fn burn() {
    let l = ledger();
    if l.lit { if l.fuse == 0 { l.lit = false; throw() } l.fuse -= 1; }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let l = ledger();
        if self.0 == l.watch { l.drops += 1; }
        if l.armed && self.0 == l.bomb { l.armed = false; throw() }
    }
}
impl Clone for Tok { fn clone(&self) -> Self { burn(); Tok(self.0.wrapping_add(ledger().clone_bias)) } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { burn(); self.0 == o.0 } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<core::cmp::Ordering> { burn(); self.0.partial_cmp(&o.0) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> core::cmp::Ordering { burn(); self.0.cmp(&o.0) } }
