//! Harness-side interface of the symbolic executor.
//! Under symx every function below is a symbolic primitive; with the `native`
//! feature they replay a concrete counterexample from a list of input values.
#[cfg(feature = "native")]
mod native;

#[cfg(not(feature = "native"))]
unsafe extern "C" {
    fn sx_any(bits: u32, lo: u64, hi: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, code: u32);
    fn sx_reach(code: u32);
    fn sx_panic_ok(c: bool);
    fn sx_concretize(v: u64) -> u64;
    fn sx_fork_eq(a: u64, b: u64) -> bool;
    fn sx_dyadic(k: i64, e: i32) -> f64;
    fn sx_run(fs: *const extern "C" fn(), n: usize, steps: usize, switches: usize);
    fn sx_thread() -> u32;
    fn sx_watch(p: usize, len: usize, before: Option<extern "C" fn()>, after: Option<extern "C" fn()>);
    fn sx_note(k: u32, v: u64);
    fn sx_live_heap() -> u64;
    fn sx_is_symbolic() -> bool;
    fn sx_holds(c: bool) -> bool;
}
#[cfg(feature = "native")]
use native::*;

/// arbitrary value of `bits` bits
#[inline(never)]
pub fn bits(bits: u32) -> u64 {
    unsafe { sx_any(bits, 0, u64::MAX) }
}
pub fn u64() -> u64 {
    bits(64)
}
pub fn u32() -> u32 {
    bits(32) as u32
}
pub fn u8() -> u8 {
    bits(8) as u8
}
pub fn u128() -> u128 {
    let l = u64();
    let h = u64();
    (h as u128) << 64 | l as u128
}
pub fn bool() -> bool {
    bits(1) == 1
}
/// arbitrary value in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    let b = 64 - hi.leading_zeros();
    unsafe { sx_any(if b == 0 { 1 } else { b }, lo, hi) }
}
/// every value in lo..=hi, each on its own path (concrete afterwards)
pub fn choose(lo: u64, hi: u64) -> u64 {
    let v = range(lo, hi);
    unsafe { sx_concretize(v) }
}
pub fn irange(lo: i64, hi: i64) -> i64 {
    lo.wrapping_add(range(0, hi.wrapping_sub(lo) as u64) as i64)
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(never)]
pub fn assert(c: bool, code: u32) {
    unsafe { sx_assert(c, code) }
}
/// reachability witness: the driver requires every witness to be reached on a feasible path
#[inline(never)]
pub fn reach(code: u32) {
    unsafe { sx_reach(code) }
}
/// from now on a panic ends the path without being a violation
#[inline(never)]
pub fn panic_ok(c: bool) {
    unsafe { sx_panic_ok(c) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sx_concretize(v) }
}
/// decide a == b by forking
pub fn fork_eq(a: u64, b: u64) -> bool {
    unsafe { sx_fork_eq(a, b) }
}
/// k * 2^e
pub fn dyadic(k: i64, e: i32) -> f64 {
    unsafe { sx_dyadic(k, e) }
}
/// memory shared by the threads of `run`: atomic accesses to it are where they interleave, plain ones must be ordered
pub fn share<T>(p: *const T) {
    unsafe { sx_watch(p as usize, std::mem::size_of::<T>(), None, None) }
}
/// run the functions as threads, in every interleaving in which none makes more than `steps` shared atomic
/// accesses and at most `switches` times one is interrupted
pub fn run(fs: &[extern "C" fn()], steps: usize, switches: usize) {
    unsafe { sx_run(fs.as_ptr(), fs.len(), steps, switches) }
}
/// the running thread
pub fn thread() -> usize {
    unsafe { sx_thread() as usize }
}
pub fn watch(p: usize, len: usize, before: Option<extern "C" fn()>, after: Option<extern "C" fn()>) {
    unsafe { sx_watch(p, len, before, after) }
}
#[inline(never)]
pub fn note(k: u32, v: u64) {
    unsafe { sx_note(k, v) }
}
pub fn live_heap() -> u64 {
    unsafe { sx_live_heap() }
}
pub fn is_symbolic() -> bool {
    unsafe { sx_is_symbolic() }
}
/// true if the condition is already decided to hold without consulting a solver (a hint only)
#[inline(never)]
pub fn holds(c: bool) -> bool {
    unsafe { sx_holds(c) }
}
