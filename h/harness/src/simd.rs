//! Every instruction-set variant of the vector operations
use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::math::polynomial::*;
use sunscreen_tfhe::math::radix::PolynomialRadixIterator;
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::*;

fn any_cpu() { cpu([0, 1, 2, 3, 7][sx::choose(0, 4) as usize]) }
/// integer operations on polynomials of length n
fn ints<S: W>(n: usize) {
    any_cpu();
    let (a, b, c) = (any_vec::<S>(n), any_vec::<S>(n), any_vec::<S>(n));
    let s = S::any();
    let (pa, pb, mut o) = (tpoly(&a), tpoly(&b), tpoly(&c));
    polynomial_add(&mut o, &pa, &pb);
    same(o.coeffs(), |i| a[i].wrapping_add(&b[i]), 1);
    polynomial_sub(&mut o, &pa, &pb);
    same(o.coeffs(), |i| a[i].wrapping_sub(&b[i]), 2);
    let mut o = Polynomial::<S>::new(&c);
    polynomial_small_scalar_mad(&mut o, &Polynomial::new(&a), s);
    for i in 0..n {
        sx::assert(o.coeffs()[i] == c[i].wrapping_add(&a[i].wrapping_mul(&s)), 3);
    }
    let sh = [1, 2, 31][sx::choose(0, 2) as usize];
    polynomial_shr_round(&mut o, &Polynomial::new(&a), sh);
    for i in 0..n {
        sx::assert(o.coeffs()[i] == (a[i] >> sh as usize).wrapping_add(&(a[i] >> (sh - 1) as usize & S::of(1))), 4);
    }
    sx::reach(1);
}
/// the same on parts of a larger buffer, where polynomials are not aligned: the neighbours stay as they are
fn parts<S: W>(n: usize) {
    any_cpu();
    let p = glwe(n, 2);
    let (x, mut y) = (any_glwe::<S>(&p), any_glwe::<S>(&p));
    let (px, py) = (polys(&x, &p), polys(&y, &p));
    let which = sx::choose(0, 3);
    let s = S::any();
    {
        let (a, o) = (x.a(&p).nth(1).unwrap(), y.a_mut(&p).nth(1).unwrap());
        match which {
            0 => polynomial_small_scalar_mad(o, a, t(s)),
            1 => polynomial_add(o, a, x.b(&p)),
            2 => polynomial_sub(o, a, x.b(&p)),
            _ => polynomial_shr_round(o, a, 3),
        }
    }
    let q = polys(&y, &p);
    for i in 0..n {
        sx::assert(q[0][i] == py[0][i], 1);
        sx::assert(q[2][i] == py[2][i], 1);
        let a = px[1][i];
        let want = match which {
            0 => py[1][i].wrapping_add(&a.wrapping_mul(&s)),
            1 => a.wrapping_add(&px[2][i]),
            2 => a.wrapping_sub(&px[2][i]),
            _ => (a >> 3).wrapping_add(&(a >> 2 & S::of(1))),
        };
        sx::assert(q[1][i] == want, 2);
    }
    sx::reach(1);
}
/// gadget digits: each in its range, and together with the rest they give the value back
fn decomp<S: W>(n: usize) {
    any_cpu();
    poison(2, n);
    let log = [1usize, 2, 7, 16][sx::choose(0, 3) as usize];
    let r = radix(1, log);
    let a = any_vec::<S>(n);
    let pa = tpoly(&a);
    let mut sc = Polynomial::<S>::new(&any_vec::<S>(n));
    let mut d = Polynomial::<S>::new(&any_vec::<S>(n));
    let mut it = PolynomialRadixIterator::new(&pa, &mut sc, &r);
    sx::assert(it.write_next(&mut d).is_some(), 1);
    sx::assert(it.write_next(&mut d).is_none(), 1);
    let (h, sh) = (1i64 << (log - 1), S::BITS as usize - log);
    for i in 0..n {
        let x = d.coeffs()[i];
        sx::assert(S::s(x) >= -h && S::s(x) <= h, 2);
        // nearest multiple of the step
        let e = a[i].wrapping_sub(&(x << sh)).wrapping_add(&S::of(1u64 << (sh - 1)));
        sx::assert(u(e) <= 1u64 << sh, 3);
    }
    sx::reach(1);
}
fn cx(v: i64, w: i64) -> Complex<f64> { Complex::new(v as f64, w as f64) }
/// complex multiply-add on m elements
fn cmad(m: usize) {
    any_cpu();
    let v = |b: i64| (0..m).map(|_| (sx::irange(-b, b), sx::irange(-b, b))).collect::<Vec<_>>();
    let (a, b, c) = (v(1 << 20), v(1 << 20), v(1 << 40));
    let mk = |x: &[(i64, i64)]| PolynomialFft::new(&x.iter().map(|x| cx(x.0, x.1)).collect::<Vec<_>>());
    let (pa, pb, mut pc) = (mk(&a), mk(&b), mk(&c));
    pc.multiply_add(&pa, &pb);
    for i in 0..m {
        let g = pc.coeffs()[i];
        let f = |x: &(i64, i64)| (x.0 as f64, x.1 as f64);
        let ((a, x), (b, y), (c, z)) = (f(&a[i]), f(&b[i]), f(&c[i]));
        sx::assert(g.re == c + a * b - x * y, 1);
        sx::assert(g.im == z + a * y + x * b, 2);
    }
    sx::reach(1);
}
/// lengths and alignments the vector code cannot handle are refused
fn cmad_bad() {
    any_cpu();
    let m = sx::choose(1, 17) as usize;
    let k = [m, m, m + 8, m + 1][sx::choose(0, 3) as usize];
    let z = vec![cx(1, 1); m];
    let (pa, pb, mut pc) = (PolynomialFft::new(&z), PolynomialFft::new(&vec![cx(1, 2); k]), PolynomialFft::new(&z));
    if m % 8 == 0 && k == m {
        pc.multiply_add(&pa, &pb);
        for x in pc.coeffs() {
            sx::assert(*x == cx(0, 4), 1);
        }
        sx::reach(1);
    } else {
        sx::panic_ok(true);
        pc.multiply_add(&pa, &pb);
        sx::assert(false, 2);
    }
}
/// real values of any size are reduced onto the torus (up to one unit)
fn reduce<S: W>(es: &[i32]) {
    any_cpu();
    poison(3, 8);
    let e = es[sx::choose(0, es.len() as u64 - 1) as usize];
    let k: Vec<i64> = (0..2).map(|_| sx::irange(-(1 << 52), 1 << 52)).collect();
    let f = PolynomialFft::new(&[Complex::new(sx::dyadic(k[0], e), sx::dyadic(k[1], e))]);
    let mut o = Polynomial::<Torus<S>>::new(&[t(S::any()), t(S::any())]);
    f.ifft(&mut o);
    for i in 0..2 {
        let want = if e >= 64 { 0 } else { (k[i] as u64) << e };
        // want, or one more when rounding up
        let d = u(o.coeffs()[i].inner().wrapping_sub(&S::of(want)).wrapping_add(&S::of(1)));
        sx::assert(d <= 2, 1);
    }
    sx::reach(1);
}
harness! {
fn h_simd_ints64() { ints::<u64>([1, 2, 3, 8, 16, 17, 24, 32][sx::choose(0, 7) as usize]) }
fn h_simd_ints32() { ints::<u32>([1, 2, 3, 8, 16, 17][sx::choose(0, 5) as usize]) }
fn h_simd_parts64() { parts::<u64>(1 << sx::choose(0, 4)) }
fn h_simd_parts32() { parts::<u32>(1 << sx::choose(0, 4)) }
fn h_simd_decomp64() { decomp::<u64>([1, 2, 5][sx::choose(0, 2) as usize]) }
fn h_simd_decomp32() { decomp::<u32>([1, 2, 5][sx::choose(0, 2) as usize]) }
fn h_simd_cmad() { cmad(8 << sx::choose(0, 1)) }
fn h_simd_cmad_bad() { cmad_bad() }
fn h_simd_reduce64() { reduce::<u64>(&[0, 1, 10, 11, 12, 13, 40, 70]) }
fn h_simd_reduce32() { reduce::<u32>(&[0, 1, 10, 12, 13, 40]) }
}
