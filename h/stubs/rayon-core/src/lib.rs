//! Stand-in for the work-stealing pool: both sides of a join run one after the other, in the order
//! and with the apparent number of threads (which decides how far iterators split) the harness
//! chooses (SX_PAR: bit 0 right side first, the rest threads - 1).
use std::marker::PhantomData;
#[no_mangle]
pub static mut SX_PAR: u32 = 0;
fn par() -> u32 {
    unsafe { *(&raw const SX_PAR) }
}
pub struct FnContext(());
impl FnContext {
    pub fn migrated(&self) -> bool {
        false
    }
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if par() & 1 == 0 {
        let x = a(FnContext(()));
        let y = b(FnContext(()));
        (x, y)
    } else {
        let y = b(FnContext(()));
        let x = a(FnContext(()));
        (x, y)
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| a(), move |_| b())
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_num_threads() -> usize {
    (par() >> 1) as usize + 1
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub struct Scope<'s>(PhantomData<&'s mut &'s ()>);
pub type ScopeFifo<'s> = Scope<'s>;
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        f(self)
    }
    pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        f(self)
    }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R + Send, R: Send>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R + Send, R: Send>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn in_place_scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        1
    }
}
pub fn broadcast<F: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(f: F) -> Vec<R> {
    vec![f(BroadcastContext(PhantomData))]
}
pub fn spawn_broadcast<F: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(f: F) {
    f(BroadcastContext(PhantomData))
}
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<F: FnOnce() -> R + Send, R: Send>(&self, f: F) -> R {
        f()
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadBuilder(());
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(())
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}
