//! The interface between a harness and what executes it.  In the solver build these are external
//! functions the symbolic executor interprets; in the native build they read recorded values.
#[cfg(not(feature = "native"))]
mod ext {
    extern "C" {
        pub fn symx_input(tag: u32, bits: u32) -> u64;
        pub fn symx_input_max(tag: u32, bits: u32, max: u64) -> u64;
        pub fn symx_choice(tag: u32, n: u64) -> u64;
        pub fn symx_assume(c: bool);
        pub fn symx_assert(c: bool, id: u32);
        pub fn symx_panic_cond(lo: bool, hi: bool);
        pub fn symx_panic_end();
        pub fn symx_observe(v: u64);
        pub fn symx_prot(addr: u64) -> u64;
        pub fn symx_alive(addr: u64) -> u64;
        pub fn symx_must(c: bool) -> u64;
        pub fn symx_guard(addr: u64, len: u64);
        pub fn symx_unguard();
        pub fn symx_fault(kind: u32, n: u64);
    }
}
#[cfg(feature = "native")]
use crate::ext;

/// An arbitrary value of `bits` bits.
#[inline(always)]
pub fn any(tag: u32, bits: u32) -> u64 {
    unsafe { ext::symx_input(tag, bits) }
}
/// An arbitrary value of `bits` bits that is at most `max`.
#[inline(always)]
pub fn any_max(tag: u32, bits: u32, max: u64) -> u64 {
    unsafe { ext::symx_input_max(tag, bits, max) }
}
/// One of 0..n, explored one by one.
#[inline(always)]
pub fn choice(tag: u32, n: u64) -> u64 {
    unsafe { ext::symx_choice(tag, n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ext::symx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { ext::symx_assert(c, id) }
}
/// Until `panic_end`, a panic is required where `lo` and allowed only where `hi`.
#[inline(always)]
pub fn panic_if(lo: bool, hi: bool) {
    unsafe { ext::symx_panic_cond(lo, hi) }
}
#[inline(always)]
pub fn panic_end() {
    unsafe { ext::symx_panic_end() }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { ext::symx_observe(v) }
}
#[inline(always)]
pub fn prot(a: u64) -> u64 {
    unsafe { ext::symx_prot(a) }
}
#[inline(always)]
pub fn alive(a: u64) -> u64 {
    unsafe { ext::symx_alive(a) }
}
#[inline(always)]
pub fn must(c: bool) -> bool {
    unsafe { ext::symx_must(c) != 0 }
}
/// From now on a write into [addr, addr + len) is a violation (both multiples of 4096).
#[inline(always)]
pub fn guard(addr: *mut u8, len: u64) {
    unsafe { ext::symx_guard(addr as u64, len) }
}
#[inline(always)]
pub fn unguard() {
    unsafe { ext::symx_unguard() }
}
/// The n-th mprotect call from now on fails (0: none).
#[inline(always)]
pub fn fault_protect(n: u64) {
    unsafe { ext::symx_fault(0, n) }
}
/// The n-th allocation of page memory from now on fails (0: none).
#[inline(always)]
pub fn fault_alloc(n: u64) {
    unsafe { ext::symx_fault(1, n) }
}
