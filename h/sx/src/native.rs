//! Replay of concrete inputs. Exit codes of the replay program: 0 every assertion
//! held, 10 an assertion failed, 11 an assumption failed (input outside the harness's
//! domain), 12 unexpected panic, 13 expected panic.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
static PANIC_OK: AtomicBool = AtomicBool::new(false);
thread_local! {
    static INPUTS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
}
#[unsafe(no_mangle)]
pub extern "C" fn sx_native_init() {
    let s = std::env::var("SX_INPUTS").unwrap_or_default();
    let v = s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect();
    INPUTS.with(|i| *i.borrow_mut() = (v, 0));
    std::panic::set_hook(Box::new(|i| {
        if PANIC_OK.load(Ordering::SeqCst) {
            println!("SX expected panic");
            std::process::exit(13);
        }
        println!("SX unexpected panic: {}", i);
        std::process::exit(12);
    }));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_any(bits: u32, lo: u64, hi: u64) -> u64 {
    let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        let v = i.0.get(k).copied().unwrap_or(lo);
        if v & !m != 0 || v < lo || v > hi {
            println!("SX input {} = {} outside {}..={} ({} bits)", k, v, lo, hi, bits);
            std::process::exit(11);
        }
        v
    })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_assume(c: bool) {
    if !c {
        println!("SX assumption failed");
        std::process::exit(11);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_assert(c: bool, code: u32) {
    if !c {
        println!("SX assertion {} failed", code);
        std::process::exit(10);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_reach(_: u32) {}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_panic_ok(c: bool) {
    PANIC_OK.store(c, Ordering::SeqCst);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_fork_eq(a: u64, b: u64) -> bool {
    a == b
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_dyadic(k: i64, e: i32) -> f64 {
    k as f64 * (e as f64).exp2()
}
// natively the threads run one after another: one of the schedules
static THREAD: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_run(fs: *const extern "C" fn(), n: usize, _: usize, _: usize) {
    for i in 0..n {
        THREAD.store(i as u32, std::sync::atomic::Ordering::Relaxed);
        unsafe { (*fs.add(i))() }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_thread() -> u32 {
    THREAD.load(std::sync::atomic::Ordering::Relaxed)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_watch(_: usize, _: usize, _: Option<extern "C" fn()>, _: Option<extern "C" fn()>) {}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_note(k: u32, v: u64) {
    println!("NOTE {} {}", k, v);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_live_heap() -> u64 {
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_is_symbolic() -> bool {
    false
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sx_holds(c: bool) -> bool {
    c
}
