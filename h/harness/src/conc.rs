//! Shared cells: threads in every interleaving of their atomic steps
use crate::harness;
use parasol_concurrency::*;

type Cell = AtomicRefCell<[u64; 2]>;
static mut CELL: *const Cell = std::ptr::null();
static mut LOCK: *const Spinlock<[u64; 2]> = std::ptr::null();
/// borrows currently held
static mut READERS: u32 = 0;
static mut WRITERS: u32 = 0;
static mut WRITES: u64 = 0;
static mut ROUNDS: u64 = 1;
static mut WHAT: [u64; 3] = [0; 3];
static mut FROM: u64 = 0;

fn cell() -> &'static Cell { unsafe { &*CELL } }
fn lock() -> &'static Spinlock<[u64; 2]> { unsafe { &*LOCK } }
fn reader() {
    unsafe {
        let r = cell().borrow();
        READERS += 1;
        sx::assert(WRITERS == 0, 1);
        sx::assert(r[0] == r[1] && r[0] == FROM.wrapping_add(WRITES), 2);
        drop(r);
        READERS -= 1;
    }
}
fn writer() {
    unsafe {
        let mut w = cell().borrow_mut();
        WRITERS += 1;
        sx::assert(WRITERS == 1 && READERS == 0, 3);
        sx::assert(w[0] == w[1] && w[0] == FROM.wrapping_add(WRITES), 4);
        w[0] = w[0].wrapping_add(1);
        w[1] = w[1].wrapping_add(1);
        WRITES += 1;
        drop(w);
        WRITERS -= 1;
    }
}
fn two_readers() {
    unsafe {
        let a = cell().borrow();
        READERS += 1;
        let b = cell().borrow();
        READERS += 1;
        sx::assert(WRITERS == 0 && a[0] == b[0] && b[1] == a[0], 5);
        drop(a);
        READERS -= 1;
        sx::assert(WRITERS == 0 && b[0] == b[1], 6);
        drop(b);
        READERS -= 1;
    }
}
fn copier() {
    let c = cell().clone();
    unsafe {
        let v = *c.borrow_mut();
        sx::assert(v[0] == v[1], 7);
        sx::assert(v[0].wrapping_sub(FROM) <= WRITES, 8);
    }
}
extern "C" fn cell_thread() {
    unsafe {
        for _ in 0..ROUNDS {
            match WHAT[sx::thread()] {
                0 => reader(),
                1 => writer(),
                2 => two_readers(),
                _ => copier(),
            }
        }
    }
}
fn cell_start() {
    unsafe {
        FROM = sx::u64();
        CELL = Box::leak(Box::new(Cell::new([FROM; 2])));
        READERS = 0;
        WRITERS = 0;
        WRITES = 0;
        sx::share(CELL);
    }
}
/// everybody has finished and nobody holds a borrow: anything can be borrowed again
fn cell_end() {
    sx::panic_ok(false);
    unsafe {
        // a refused thread may have kept nothing
        sx::assert(READERS == 0 && WRITERS == 0, 9);
        let w = cell().borrow_mut();
        sx::assert(w[0] == w[1] && w[0] == FROM.wrapping_add(WRITES), 10);
        drop(w);
        let (a, b) = (cell().borrow(), cell().borrow());
        sx::assert(a[0] == b[1], 11);
    }
    sx::reach(1);
}
fn cells(threads: usize, rounds: u64, steps: usize, switches: usize, kinds: u64) {
    unsafe {
        ROUNDS = rounds;
        // threads are alike: only ordered choices
        let mut lo = 0;
        for i in 0..threads {
            WHAT[i] = sx::choose(lo, kinds - 1);
            lo = WHAT[i];
        }
        cell_start();
        // shared borrows alone never refuse each other
        sx::panic_ok((0..threads).any(|i| WHAT[i] == 1));
        sx::run(&[cell_thread as extern "C" fn(); 3][..threads], steps, switches);
        cell_end();
    }
}
/// one thread: what is refused and what is not
fn cell_seq() {
    cell_start();
    let c = cell();
    sx::panic_ok(false);
    match sx::choose(0, 7) {
        0 => {
            let r = c.borrow();
            sx::panic_ok(true);
            let _w = c.borrow_mut();
            sx::assert(r[0] == 0 && false, 1);
        }
        1 => {
            let _w = c.borrow_mut();
            sx::panic_ok(true);
            let _r = c.borrow();
            sx::assert(false, 2);
        }
        2 => {
            let _w = c.borrow_mut();
            sx::panic_ok(true);
            let _w = c.borrow_mut();
            sx::assert(false, 3);
        }
        3 => {
            let _w = c.borrow_mut();
            sx::panic_ok(true);
            let _c = c.clone();
            sx::assert(false, 4);
        }
        4 => {
            // n shared borrows, all but one given back
            let n = sx::choose(2, 6);
            let k = sx::choose(0, n - 1) as usize;
            let mut v: Vec<_> = (0..n).map(|_| c.borrow()).collect();
            let kept = v.swap_remove(k);
            drop(v);
            sx::panic_ok(true);
            let _w = c.borrow_mut();
            sx::assert(kept[0] == 0 && false, 5);
        }
        5 => {
            let n = sx::choose(0, 6);
            let v: Vec<_> = (0..n).map(|_| c.borrow()).collect();
            drop(v);
            let mut w = c.borrow_mut();
            w[1] = 5;
            drop(w);
            sx::assert(c.borrow()[1] == 5, 6);
            sx::reach(1);
        }
        6 => {
            // a copy is independent and free, even while the original is shared
            let _r = c.borrow();
            let d = c.clone();
            let mut w = d.borrow_mut();
            w[0] = w[0].wrapping_add(1);
            drop(w);
            sx::assert(c.borrow()[0] == unsafe { FROM } && d.borrow()[0] == unsafe { FROM }.wrapping_add(1), 7);
            sx::reach(2);
        }
        _ => {
            let mut w = c.borrow_mut();
            let x = sx::u64();
            *w = [x, x];
            sx::assert(w[0] == x, 8);
            drop(w);
            sx::assert(*c.borrow() == [x, x], 9);
            sx::reach(3);
        }
    }
}
fn crit(h: SpinlockHandle<'static, [u64; 2]>) {
    let mut h = h;
    unsafe {
        WRITERS += 1;
        sx::assert(WRITERS == 1, 1);
        sx::assert(h[0] == h[1] && h[0] == FROM.wrapping_add(WRITES), 2);
        h[0] = h[0].wrapping_add(1);
        h[1] = h[1].wrapping_add(1);
        WRITES += 1;
        drop(h);
        WRITERS -= 1;
    }
}
extern "C" fn lock_thread() {
    unsafe {
        for _ in 0..ROUNDS {
            match WHAT[sx::thread()] {
                0 => crit(lock().lock()),
                1 => {
                    if let Some(h) = lock().try_lock() {
                        crit(h)
                    }
                }
                _ => {
                    // kept for good
                    let mut h = lock().lock();
                    WRITERS += 1;
                    sx::assert(WRITERS == 1 && h[0] == FROM.wrapping_add(WRITES), 3);
                    h[0] = h[0].wrapping_add(1);
                    h[1] = h[1].wrapping_add(1);
                    WRITES += 1;
                    h.keep_locked();
                }
            }
        }
    }
}
fn locks(threads: usize, rounds: u64, steps: usize, switches: usize) {
    unsafe {
        ROUNDS = rounds;
        let mut lo = 0;
        for i in 0..threads {
            WHAT[i] = sx::choose(lo, 2);
            lo = WHAT[i];
        }
        FROM = sx::u64();
        LOCK = Box::leak(Box::new(Spinlock::new([FROM; 2])));
        WRITERS = 0;
        WRITES = 0;
        sx::share(LOCK);
        sx::panic_ok(false);
        sx::run(&[lock_thread as extern "C" fn(); 3][..threads], steps, switches);
        // free unless somebody keeps it
        match lock().try_lock() {
            Some(h) => {
                sx::assert(WRITERS == 0, 4);
                sx::assert(*h == [FROM.wrapping_add(WRITES); 2], 5);
                sx::assert(lock().try_lock().is_none(), 6);
                sx::reach(1);
            }
            None => {
                sx::assert(WRITERS == 1, 7);
                sx::reach(2);
            }
        }
    }
}
harness! {
fn h_cell_seq() { cell_seq() }
fn h_cell_2() { cells(2, 1, 8, 4, 4) }
fn h_cell_2x2() { cells(2, 2, 10, 3, 3) }
fn h_cell_3() { cells(3, 1, 8, 3, 2) }
fn h_spin_2() { locks(2, 1, 8, 8) }
fn h_spin_2x2() { locks(2, 2, 8, 4) }
fn h_spin_3() { locks(3, 1, 6, 3) }
}
