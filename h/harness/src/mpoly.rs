//! Polynomials over a ring
use crate::harness;
use sunscreen_math::poly::Polynomial;
use sunscreen_math::ring::*;
use sunscreen_math::{One, Zero};

type R = ZInt<u64>;
type P = Polynomial<R>;
fn any(len: usize) -> (P, Vec<u64>) {
    let v: Vec<u64> = (0..len).map(|_| sx::u64()).collect();
    (P::new(&v.iter().map(|x| ZInt::from(*x)).collect::<Vec<_>>()), v)
}
fn at(v: &[u64], i: usize) -> u64 { if i < v.len() { v[i] } else { 0 } }
fn at_p(p: &P, i: usize) -> u64 { if i < p.coeffs.len() { p.coeffs[i].0 } else { 0 } }
/// the coefficients of p are f(0), f(1), ... and zero from n on
fn is(p: &P, n: usize, f: impl Fn(usize) -> u64, code: u32) {
    for i in 0..n.max(p.coeffs.len()) {
        sx::assert(at_p(p, i) == if i < n { f(i) } else { 0 }, code);
    }
}
fn product(a: &[u64], b: &[u64], i: usize) -> u64 {
    (0..=i).fold(0u64, |s, j| s.wrapping_add(at(a, j).wrapping_mul(at(b, i - j))))
}
fn value(a: &[u64], x: u64) -> u64 {
    a.iter().rev().fold(0u64, |s, c| s.wrapping_mul(x).wrapping_add(*c))
}
fn ops(max: u64) {
    let (la, lb) = (sx::choose(0, max) as usize, sx::choose(0, max) as usize);
    let ((a, x), (b, y)) = (any(la), any(lb));
    let n = la.max(lb);
    is(&(&a + &b), n, |i| at(&x, i).wrapping_add(at(&y, i)), 1);
    is(&(a.clone() + b.clone()), n, |i| at(&x, i).wrapping_add(at(&y, i)), 2);
    is(&(&a - &b), n, |i| at(&x, i).wrapping_sub(at(&y, i)), 3);
    is(&(a.clone() - &b), n, |i| at(&x, i).wrapping_sub(at(&y, i)), 4);
    is(&(&a * &b), la + lb, |i| product(&x, &y, i), 5);
    is(&(&a * b.clone()), la + lb, |i| product(&x, &y, i), 6);
    is(&(-a.clone()), n, |i| at(&x, i).wrapping_neg(), 7);
    let s = sx::u64();
    is(&(&a * &ZInt::from(s)), n, |i| at(&x, i).wrapping_mul(s), 8);
    is(&(&P::one() * &a), n, |i| at(&x, i), 9);
    is(&(&P::zero() + &a), n, |i| at(&x, i), 10);
    is(&(&P::zero() * &a), 0, |_| 0, 11);
    // the arguments are as they were
    is(&a, n, |i| at(&x, i), 12);
    is(&b, n, |i| at(&y, i), 13);
    for i in 0..la {
        sx::assert(a[i].0 == x[i], 14);
    }
    if la > 0 {
        let i = sx::choose(0, la as u64 - 1) as usize;
        let mut c = a.clone();
        c[i] = ZInt::from(s);
        is(&c, la, |j| if j == i { s } else { x[j] }, 15);
    }
    sx::reach(1);
}
fn eval(max: u64) {
    let (la, lb) = (sx::choose(0, max) as usize, sx::choose(0, max) as usize);
    let ((a, x), (b, y)) = (any(la), any(lb));
    let p = sx::u64();
    let e = |q: &P| q.evaluate(&ZInt::from(p)).0;
    let (u, v) = (value(&x, p), value(&y, p));
    sx::assert(e(&a) == u, 20);
    sx::assert(e(&(&a + &b)) == u.wrapping_add(v), 21);
    sx::assert(e(&(&a - &b)) == u.wrapping_sub(v), 22);
    sx::assert(e(&(&a * &b)) == u.wrapping_mul(v), 23);
    sx::reach(1);
}
/// equality, zero and degree disregard leading zeros
fn equal(max: u64) {
    let (la, lb) = (sx::choose(0, max) as usize, sx::choose(0, max) as usize);
    let ((a, x), (b, y)) = (any(la), any(lb));
    let same = (0..la.max(lb)).fold(true, |s, i| s & (at(&x, i) == at(&y, i)));
    sx::assert((a == b) == same, 30);
    let zero = x.iter().fold(true, |s, c| s & (*c == 0));
    sx::assert(a.vartime_is_zero() == zero, 31);
    sx::assert((a == P::zero()) == zero, 32);
    if !zero {
        let d = a.vartime_degree();
        sx::assert(d < la, 33);
        sx::assert(x[d] != 0, 34);
        for i in d + 1..la {
            sx::assert(x[i] == 0, 35);
        }
    }
    sx::reach(1);
}
fn degree_of_zero() {
    let n = sx::choose(0, 4) as usize;
    P::new(&vec![ZInt::from(0); n]).vartime_degree();
    sx::assert(false, 36);
}
/// a = q b + r, deg r < deg b, for monic b
fn divide(max: u64, db: u64) {
    let (la, lb) = (sx::choose(0, max) as usize, sx::choose(0, db) as usize);
    let ((a, x), (b, mut y)) = (any(la), any(lb));
    let mut b = b;
    b.coeffs.push(ZInt::from(1));
    y.push(1);
    for _ in 0..sx::choose(0, 1) {
        b.coeffs.push(ZInt::from(0));
        y.push(0);
    }
    let (q, r) = a.vartime_div_rem_restricted_rhs(&b);
    is(&(&(&q * &b) + &r), la, |i| x[i], 40);
    let (qv, n): (Vec<u64>, usize) = (q.coeffs.iter().map(|c| c.0).collect(), la + lb + 2);
    for i in 0..n {
        sx::assert(product(&qv, &y, i).wrapping_add(at_p(&r, i)) == at(&x, i), 41);
    }
    for i in lb..r.coeffs.len() {
        sx::assert(r.coeffs[i].0 == 0, 42);
    }
    sx::reach(1);
}
fn divide_bad() {
    let (a, _) = any(sx::choose(0, 4) as usize);
    let lb = sx::choose(0, 3) as usize;
    let (b, y) = any(lb);
    // the leading non-zero coefficient is not one
    let mut lead = 0;
    for c in &y {
        if *c != 0 {
            lead = *c;
        }
    }
    sx::assume(lead != 1);
    a.vartime_div_rem_restricted_rhs(&b);
    sx::assert(false, 43);
}
harness! {
fn h_mpoly_ops() { ops(4) }
fn h_mpoly_eval() { eval(4) }
fn h_mpoly_eq() { equal(4) }
fn h_mpoly_degree_zero() { sx::panic_ok(true); degree_of_zero() }
fn h_mpoly_div() { divide(5, 3) }
fn h_mpoly_div_bad() { sx::panic_ok(true); divide_bad() }
}
