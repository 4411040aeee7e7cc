use crate::harness;
use crate::util::*;
use std::num::Wrapping;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::math::polynomial::*;
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::*;

/// coefficient-wise operations agree with the ring for a given length
fn coeffwise<S: W>(n: usize) {
    let (a, b, c) = (any_vec::<S>(n), any_vec::<S>(n), any_vec::<S>(n));
    let s = S::any();
    let (pa, pb) = (tpoly(&a), tpoly(&b));
    let mut o = tpoly(&c);
    polynomial_add(&mut o, &pa, &pb);
    same(o.coeffs(), |i| a[i].wrapping_add(&b[i]), 1);
    polynomial_sub(&mut o, &pa, &pb);
    same(o.coeffs(), |i| a[i].wrapping_sub(&b[i]), 2);
    let mut o = tpoly(&c);
    polynomial_add_assign(&mut o, &pa);
    same(o.coeffs(), |i| c[i].wrapping_add(&a[i]), 3);
    let mut o = tpoly(&c);
    polynomial_sub_assign(&mut o, &pa);
    same(o.coeffs(), |i| c[i].wrapping_sub(&a[i]), 4);
    polynomial_negate(&mut o);
    same(o.coeffs(), |i| a[i].wrapping_sub(&c[i]), 5);
    let mut o = tpoly(&c);
    polynomial_scalar_mad(&mut o, &pa, s);
    same(o.coeffs(), |i| c[i].wrapping_add(&a[i].wrapping_mul(&s)), 6);
    polynomial_scalar_mul(&mut o, &pa, s);
    same(o.coeffs(), |i| a[i].wrapping_mul(&s), 7);
    let mut o = Polynomial::<S>::new(&c);
    polynomial_small_scalar_mad(&mut o, &Polynomial::new(&a), s);
    for i in 0..n {
        sx::assert(o.coeffs()[i] == c[i].wrapping_add(&a[i].wrapping_mul(&s)), 8);
    }
    let q = &*pa + &*pb;
    same(q.coeffs(), |i| a[i].wrapping_add(&b[i]), 9);
    let q = &*pa - &*pb;
    same(q.coeffs(), |i| a[i].wrapping_sub(&b[i]), 10);
    let mut o = pa.clone();
    *o += &*pb;
    same(o.coeffs(), |i| a[i].wrapping_add(&b[i]), 11);
    let mut o = pa.clone();
    *o -= &*pb;
    same(o.coeffs(), |i| a[i].wrapping_sub(&b[i]), 12);
    sx::reach(1);
}
/// schoolbook negacyclic products
fn product<S: W>(n: usize)
where
    Wrapping<S>: std::ops::Sub<Wrapping<S>, Output = Wrapping<S>> + std::ops::Add<Wrapping<S>, Output = Wrapping<S>> + std::ops::Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    poison(2, n);
    let (a, b, c) = (any_vec::<S>(n), any_vec::<S>(n), any_vec::<S>(n));
    let mut want = c.clone();
    ref_mad(&mut want, &a, &b);
    let mut o = tpoly(&c);
    polynomial_external_mad(&mut o, &tpoly(&a), &Polynomial::new(&b));
    same(o.coeffs(), |i| want[i], 1);
    let mut o = Polynomial::<S>::new(&c);
    polynomial_mad_by_wrap(&mut o, &Polynomial::new(&a), &Polynomial::new(&b));
    for i in 0..n {
        sx::assert(o.coeffs()[i] == want[i], 2);
    }
    let mut want = vec![S::of(0); n];
    ref_mad(&mut want, &a, &b);
    let o = &*tpoly(&a) * &*Polynomial::<S>::new(&b);
    same(o.coeffs(), |i| want[i], 3);
    sx::reach(1);
}
/// X^k * p for every k in a window around zero, and for huge |k|
fn monomial<S: W>(n: usize) {
    let a = any_vec::<S>(n);
    let w = 4 * n as u64;
    let e = sx::choose(0, 2 * w + 3);
    let k: isize = if e <= 2 * w {
        e as isize - w as isize
    } else {
        [isize::MAX, isize::MIN, isize::MIN + 1][(e - 2 * w - 1) as usize]
    };
    let mut o = tpoly(&a);
    o.mul_by_monomial_negacyclic(k);
    let want = ref_monomial(&a, k as i128);
    same(o.coeffs(), |i| want[i], 1);
    if k >= 0 {
        let mut o = tpoly(&a);
        o.mul_by_positive_monomial_negacyclic(k as usize);
        same(o.coeffs(), |i| want[i], 2);
        let mut o = tpoly(&a);
        o.mul_by_negative_monomial_negacyclic(k as usize);
        let want = ref_monomial(&a, -(k as i128));
        same(o.coeffs(), |i| want[i], 3);
    }
    sx::reach(1);
}
/// p(X^k) for odd k
fn pow_k<S: W + sunscreen_math::One + sunscreen_math::Zero>(n: usize) {
    let a = any_vec::<S>(n);
    let k = (sx::choose(0, 2 * n as u64) * 2 + 1) as usize;
    let mut o = tpoly(&any_vec::<S>(n));
    polynomial_pow_k::<Torus<S>, S>(&mut o, &tpoly(&a), k);
    let want = ref_pow(&a, k);
    same(o.coeffs(), |i| want[i], 1);
    sx::reach(1);
}
fn codec<S: W>(n: usize) {
    let p = sx::choose(1, S::BITS as u64 - 1) as u32;
    let m: Vec<S> = (0..n).map(|_| S::of(sx::bits(p))).collect();
    let mut e = tpoly(&any_vec::<S>(n));
    encode_polynomial(&mut e, &Polynomial::new(&m), PlaintextBits(p));
    same(e.coeffs(), |i| S::of(u(m[i]) << (S::BITS - p)), 1);
    let mut d = Polynomial::<S>::new(&any_vec::<S>(n));
    decode_polynomial(&mut d, &e, PlaintextBits(p));
    for i in 0..n {
        sx::assert(d.coeffs()[i] == m[i], 2);
    }
    sx::reach(1);
}
fn shr_round<S: W>(n: usize) {
    let k = sx::choose(1, S::BITS as u64 - 1) as u32;
    let x = any_vec::<S>(n);
    let mut y = Polynomial::<S>::new(&any_vec::<S>(n));
    polynomial_shr_round(&mut y, &Polynomial::new(&x), k);
    for i in 0..n {
        // nearest integer to x / 2^k, halves up
        let want = S::of((u(x[i]) >> k) + (u(x[i]) >> (k - 1) & 1));
        sx::assert(y.coeffs()[i] == want, 1);
    }
    sx::reach(1);
}
harness! {
fn h_poly_cw64() { coeffwise::<u64>(sx::choose(1, 9) as usize) }
fn h_poly_cw64_nosimd() { cpu(0); coeffwise::<u64>(sx::choose(1, 5) as usize) }
fn h_poly_cw32() { coeffwise::<u32>(sx::choose(1, 9) as usize) }
fn h_poly_mul64() { product::<u64>(1 << sx::choose(0, 4)) }
fn h_poly_mul32() { product::<u32>(1 << sx::choose(0, 4)) }
fn h_poly_mono64() { monomial::<u64>(1 << sx::choose(0, 4)) }
fn h_poly_mono32() { monomial::<u32>(8) }
fn h_poly_pow64() { pow_k::<u64>(1 << sx::choose(0, 4)) }
fn h_poly_pow32() { pow_k::<u32>(8) }
fn h_poly_codec64() { codec::<u64>(5) }
fn h_poly_codec32() { codec::<u32>(5) }
fn h_poly_shr64() { shr_round::<u64>(sx::choose(1, 9) as usize) }
fn h_poly_shr64_nosimd() { cpu(0); shr_round::<u64>(3) }
fn h_poly_shr32() { shr_round::<u32>(5) }
}
