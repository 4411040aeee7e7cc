use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::*;

fn fft_mul<S: W>(n: usize, dbits: u32, tol: u32) {
    poison(3, 4 * n);
    let a: Vec<S> = (0..n).map(|_| S::any()).collect();
    let h = 1i64 << (dbits - 1);
    let b: Vec<S> = (0..n).map(|_| S::of(sx::irange(-h, h - 1) as u64)).collect();
    let pa = Polynomial::<Torus<S>>::new(&a.iter().map(|x| t(*x)).collect::<Vec<_>>());
    let pb = Polynomial::<S>::new(&b);
    let z = vec![Complex::new(0.0, 0.0); n / 2];
    let mut fa = PolynomialFft::new(&z);
    let mut fb = PolynomialFft::new(&z);
    let mut fc = PolynomialFft::new(&z);
    pa.fft(&mut fa);
    pb.fft(&mut fb);
    fc.multiply_add(&fa, &fb);
    let mut out = Polynomial::<Torus<S>>::new(&vec![t(S::of(0)); n]);
    fc.ifft(&mut out);
    let mut want = vec![S::of(0); n];
    ref_mad(&mut want, &a, &b);
    sx::reach(1);
    for i in 0..n {
        sx::assert(close(out.coeffs()[i], t(want[i]), tol), 1);
    }
}
/// the same at a production degree, for digit polynomials of a few coefficients
fn fft_sparse<S: W>(n: usize, pb: &[usize], dbits: u32, tol: u32) {
    let (a, mut b) = (any_vec::<S>(n), vec![S::of(0); n]);
    let h = 1i64 << (dbits - 1);
    for i in pb {
        b[*i] = S::of(sx::irange(-h, h - 1) as u64);
    }
    let z = vec![Complex::new(0.0, 0.0); n / 2];
    let (mut fa, mut fb, mut fc) = (PolynomialFft::new(&z), PolynomialFft::new(&z), PolynomialFft::new(&z));
    tpoly(&a).fft(&mut fa);
    Polynomial::<S>::new(&b).fft(&mut fb);
    fc.multiply_add(&fa, &fb);
    let mut out = Polynomial::<Torus<S>>::new(&vec![t(S::of(0)); n]);
    fc.ifft(&mut out);
    let mut want = vec![S::of(0); n];
    for i in 0..n {
        for j in pb {
            let x = a[i].wrapping_mul(&b[*j]);
            let k = (i + j) % n;
            want[k] = if i + j < n { want[k].wrapping_add(&x) } else { want[k].wrapping_sub(&x) };
        }
    }
    sx::reach(1);
    for i in 0..n {
        sx::assert(close(out.coeffs()[i], t(want[i]), tol), 1);
    }
}
harness! {
fn h_fft_n128() { cpu([0, 3, 7][sx::choose(0, 2) as usize]); fft_sparse::<u64>(128, &[0, 1, 64, 127][sx::choose(0, 3) as usize..][..1], 8, 42) }
fn h_fft_n256() { fft_sparse::<u64>(256, &[131], 8, 42) }
fn h_fft_mul64() { fft_mul::<u64>(16, 8, 40) }
fn h_fft_mul32() { fft_mul::<u32>(16, 8, 4) }
fn h_fft_mul64_scalar() { cpu(0); fft_mul::<u64>(16, 8, 40) }
fn h_fft_mul64_512() { cpu(7); fft_mul::<u64>(16, 8, 40) }
fn h_fft_mul64_n32() { fft_mul::<u64>(32, 8, 40) }
fn h_fft_mul64_n64() { fft_mul::<u64>(64, 8, 40) }
}
