//! Scratch buffers (internal, reached through the verification hook)
use crate::harness;
use num::Complex;
use sunscreen_tfhe::verif_hooks::{allocate_scratch, ScratchBuffer};
use sunscreen_tfhe::Torus;

enum B {
    Bytes(ScratchBuffer<'static, u8>),
    Words(ScratchBuffer<'static, u64>),
    Torus(ScratchBuffer<'static, Torus<u32>>),
    Complex(ScratchBuffer<'static, Complex<f64>>),
}
use B::*;
impl B {
    fn new(k: u64) -> (B, usize) {
        match k {
            0 => (Words(allocate_scratch(3)), 3),
            1 => (Bytes(allocate_scratch(17)), 17),
            2 => (Complex(allocate_scratch(2)), 2),
            3 => (Torus(allocate_scratch(0)), 0),
            _ => (Words(allocate_scratch(9)), 9),
        }
    }
    fn range(&mut self) -> (usize, usize) {
        macro_rules! r { ($b:ident) => {{ let s = $b.as_mut_slice(); (s.as_ptr() as usize, s.len()) }} }
        match self { Bytes(b) => r!(b), Words(b) => r!(b), Torus(b) => r!(b), Complex(b) => r!(b) }
    }
    fn size(&self) -> usize { match self { Bytes(_) => 1, Words(_) => 8, Torus(_) => 4, Complex(_) => 16 } }
    /// fill with v, v+1, ...
    fn fill(&mut self, v: u64) {
        let at = |i: usize| v.wrapping_add(i as u64);
        match self {
            Bytes(b) => b.as_mut_slice().iter_mut().enumerate().for_each(|(i, x)| *x = at(i) as u8),
            Words(b) => b.as_mut_slice().iter_mut().enumerate().for_each(|(i, x)| *x = at(i)),
            Torus(b) => b.as_mut_slice().iter_mut().enumerate().for_each(|(i, x)| *x = (at(i) as u32).into()),
            Complex(b) => b.as_mut_slice().iter_mut().enumerate().for_each(|(i, x)| *x = num::Complex::new(f64::from_bits(at(i)), 1.0)),
        }
    }
    fn holds(&self, v: u64, code: u32) {
        let at = |i: usize| v.wrapping_add(i as u64);
        match self {
            Bytes(b) => b.as_slice().iter().enumerate().for_each(|(i, x)| sx::assert(*x == at(i) as u8, code)),
            Words(b) => b.as_slice().iter().enumerate().for_each(|(i, x)| sx::assert(*x == at(i), code)),
            Torus(b) => b.as_slice().iter().enumerate().for_each(|(i, x)| sx::assert(x.inner() == at(i) as u32, code)),
            Complex(b) => b.as_slice().iter().enumerate().for_each(|(i, x)| sx::assert(x.re.to_bits() == at(i) && x.im == 1.0, code)),
        }
    }
}
/// `steps` allocations and releases in every order: live buffers have their length and alignment, never overlap, keep what was written
fn history(steps: usize, kinds: u64, slots: usize) {
    let mut live: Vec<(B, u64)> = vec![];
    for _ in 0..steps {
        let n = live.len() as u64;
        let full = live.len() == slots;
        let k = sx::choose(0, n + if full { 0 } else { kinds } - 1);
        if k < n {
            let (b, v) = live.swap_remove(k as usize);
            b.holds(v, 1);
            drop(b);
        } else {
            let (mut b, len) = B::new(k - n);
            let (p, l) = b.range();
            sx::assert(l == len, 2);
            sx::assert(p % 64 == 0, 3);
            let e = p + l * b.size();
            for (o, _) in live.iter_mut() {
                let (q, m) = o.range();
                sx::assert(l == 0 || m == 0 || q + m * o.size() <= p || e <= q, 4);
            }
            let v = sx::u64();
            b.fill(v);
            live.push((b, v));
        }
        for (b, v) in live.iter() {
            b.holds(*v, 5);
        }
    }
    sx::reach(1);
}
/// buffers given back are used again: the same work needs no more memory the second time
fn reuse() {
    let work = |k: u64, m: u64| {
        let (mut a, _) = B::new(k);
        a.fill(1);
        let (mut b, _) = B::new(m);
        b.fill(2);
        a.holds(1, 1);
    };
    let (k, m) = (sx::choose(0, 4), sx::choose(0, 4));
    work(k, m);
    work(k, m);
    let h = sx::live_heap();
    for _ in 0..3 {
        work(k, m);
        sx::assert(sx::live_heap() <= h, 2);
    }
    sx::reach(1);
}
/// sizes that do not fit in memory are refused, never handed out short
fn huge() {
    sx::panic_ok(true);
    let c = (sx::u64() | 1 << [61, 62, 63][sx::choose(0, 2) as usize]) & !(sx::choose(0, 1) * 0xffff_ffff);
    let c = c & !((1 << 61) - 1) | [0, 1, 2, 9][sx::choose(0, 3) as usize];
    let mut b: ScratchBuffer<u64> = allocate_scratch(c as usize);
    let s = b.as_mut_slice();
    sx::assert(s.len() < 64, 1);
}
harness! {
fn h_scr_hist3() { history(5, 5, 3) }
fn h_scr_hist2() { history(6, 3, 3) }
fn h_scr_reuse() { reuse() }
fn h_scr_huge() { huge() }
}
