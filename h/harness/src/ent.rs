//! Containers: the accessors hand out the stated parts, in order, disjoint and complete
use crate::harness;
use crate::util::*;
use num::Complex;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::*;

/// which end is taken next: any order for the first three, then alternating
fn side(step: usize) -> bool { if step < 3 { sx::choose(0, 1) == 1 } else { step & 1 == 1 } }
/// `it` yields the n blocks of size sz of `all`, from both ends, and knows how many are left
fn walk<'a, E: W, R: ?Sized + 'a, I: DoubleEndedIterator<Item = &'a R> + ExactSizeIterator>(mut it: I, all: &[E], n: usize, sz: usize) {
    sx::assert(all.len() == n * sz, 1);
    let (mut f, mut b) = (0, n);
    let mut ends = 0;
    while ends < 2 {
        sx::assert(it.len() == b - f, 2);
        sx::assert(it.size_hint() == (b - f, Some(b - f)), 10);
        let back = side(n - (b - f) + ends);
        match if back { it.next_back() } else { it.next() } {
            None => {
                sx::assert(f == b, 3);
                ends += 1;
            }
            Some(x) => {
                sx::assert(f < b, 4);
                let i = if back { b -= 1; b } else { f += 1; f - 1 };
                eq(ws::<E, R>(x), &all[i * sz..(i + 1) * sz], 5);
            }
        }
    }
}
/// the same for mutable blocks: what is written through them ends up in place; returns the contents expected afterwards
fn walk_mut<'a, E: W, R: ?Sized + 'a, I: DoubleEndedIterator<Item = &'a mut R> + ExactSizeIterator>(mut it: I, all: &[E], n: usize, sz: usize) -> Vec<E> {
    sx::assert(all.len() == n * sz, 1);
    let mut want = all.to_vec();
    let (mut f, mut b) = (0, n);
    let mut held: Vec<(&'a mut R, usize)> = vec![];
    let mut ends = 0;
    while ends < 2 {
        sx::assert(it.len() == b - f, 2);
        sx::assert(it.size_hint() == (b - f, Some(b - f)), 10);
        let back = side(n - (b - f) + ends);
        match if back { it.next_back() } else { it.next() } {
            None => {
                sx::assert(f == b, 3);
                ends += 1;
            }
            Some(x) => {
                sx::assert(f < b, 4);
                let i = if back { b -= 1; b } else { f += 1; f - 1 };
                eq(ws::<E, R>(x), &all[i * sz..(i + 1) * sz], 5);
                held.push((x, i));
            }
        }
    }
    for (x, i) in held {
        want[i * sz..(i + 1) * sz].copy_from_slice(&fill::<E, R>(x));
    }
    want
}
macro_rules! both {
    ($e:ty: $x:expr, $n:expr, $sz:expr, $rows:ident, $rows_mut:ident, $($a:expr),*) => {{
        let mut x = $x;
        sx::assert(ws::<$e, _>(&*x).iter().fold(true, |o, w| o & (u(*w) == 0)), 6);
        one!($e: x, $n, $sz, $rows, $rows_mut, $($a),*);
        x
    }};
}
macro_rules! one {
    ($e:ty: $x:ident, $n:expr, $sz:expr, $rows:ident, $rows_mut:ident, $($a:expr),*) => {{
        let all = fill::<$e, _>(&mut *$x);
        if sx::choose(0, 1) == 0 {
            walk(ro(&mut *$x).$rows($($a),*), &all, $n, $sz);
        } else {
            let want = walk_mut($x.$rows_mut($($a),*), &all, $n, $sz);
            eq(ws::<$e, _>(&*$x), &want, 7);
        }
    }};
}
/// (some accessors that only read ask for a mutable reference)
fn ro<R: ?Sized>(r: &mut R) -> &mut R { r }
macro_rules! parallel {
    ($e:ty: $x:expr, $n:expr, $sz:expr, $rows:ident, $rows_mut:ident, $($a:expr),*) => {{
        let mut x = $x;
        par(sx::choose(0, 1) == 1, sx::choose(1, 3) as u32);
        let all = fill::<$e, _>(&mut *x);
        let (n, sz) = ($n, $sz);
        sx::assert(all.len() == n * sz, 1);
        let got: Vec<(usize, Vec<$e>)> = ro(&mut *x).$rows($($a),*).enumerate().map(|(i, r)| (i, ws::<$e, _>(r).to_vec())).collect();
        sx::assert(got.len() == n, 2);
        for (j, (i, r)) in got.iter().enumerate() {
            sx::assert(*i == j, 3);
            eq(r, &all[i * sz..(i + 1) * sz], 4);
        }
        let back: Vec<Vec<$e>> = ro(&mut *x).$rows($($a),*).rev().map(|r| ws::<$e, _>(r).to_vec()).collect();
        sx::assert(back.len() == n, 2);
        for (j, r) in back.iter().enumerate() {
            eq(r, &all[(n - 1 - j) * sz..(n - j) * sz], 5);
        }
        let new = any_vec::<$e>(all.len());
        x.$rows_mut($($a),*).enumerate().for_each(|(i, r)| ws_mut::<$e, _>(r).copy_from_slice(&new[i * sz..(i + 1) * sz]));
        eq(ws::<$e, _>(&*x), &new, 7);
    }};
}
fn dims(n: &[usize]) -> (GlweDef, usize, usize) {
    let d = n[sx::choose(0, n.len() as u64 - 1) as usize];
    let k = sx::choose(1, 3) as usize;
    (glwe(d, k), d, k)
}
fn count() -> usize { sx::choose(1, 3) as usize }

fn lwe_containers<E: W>() {
    let n = sx::choose(1, 4) as usize;
    let p = lwe(n);
    match sx::choose(0, 3) {
        0 => { let c = sx::choose(0, 4) as usize; both!(E: LweCiphertextList::<E>::new(&p, c), c, n + 1, ciphertexts, ciphertexts_mut, &p); }
        1 => {
            let (m, c) = (sx::choose(1, 3) as usize, count());
            let q = lwe(m);
            both!(E: LweKeyswitchKey::<E>::new(&p, &q, &radix(c, 3)), n, (m + 1) * c, rows, rows_mut, &q, &radix(c, 3));
        }
        2 => {
            let c = count();
            let mut k = LweKeyswitchKey::<E>::new(&lwe(1), &p, &radix(c, 3));
            let r = radix(c, 3);
            let mut it = k.rows_mut(&p, &r);
            let x = it.next().unwrap();
            one!(E: x, c, n + 1, lwe_ciphertexts, lwe_ciphertexts_mut, &p);
        }
        _ => {
            let mut x = LwePublicKey::<E>::generate(&any_lwe_key::<E>(&p), &p);
            one!(E: x, n, n + 1, enc_zeros, enc_zeros_mut, &p);
        }
    }
    sx::reach(1);
}
fn lwe_parts<E: W>() {
    let n = sx::choose(1, 5) as usize;
    let p = lwe(n);
    let mut c = LweCiphertext::<E>::new(&p);
    eq(ws::<E, _>(&*c), &vec![<E as num::Zero>::zero(); n + 1], 1);
    let all = fill::<E, _>(&mut *c);
    let (a, b) = c.a_b(&p);
    eq(&inner(a), &all[..n], 2);
    eq(&[b.inner()], &all[n..], 3);
    eq(&inner(c.a(&p)), &all[..n], 2);
    eq(&[c.b(&p).inner()], &all[n..], 3);
    let new = any_vec::<E>(n + 1);
    let (a, b) = c.a_b_mut(&p);
    sx::assert(a.len() == n, 4);
    for i in 0..n { a[i] = t(new[i]); }
    *b = t(new[n]);
    eq(ws::<E, _>(&*c), &new, 5);
    let new = any_vec::<E>(n + 1);
    for i in 0..n { c.a_mut(&p)[i] = t(new[i]); }
    *c.b_mut(&p) = t(new[n]);
    eq(ws::<E, _>(&*c), &new, 5);
    sx::reach(1);
}
fn glwe_containers<E: W>() {
    let (p, n, k) = dims(&[1, 2, 4]);
    let g = n * (k + 1);
    match sx::choose(0, 4) {
        0 => {
            let mut x = GlweCiphertext::<E>::new(&p);
            sx::assert(ws::<E, _>(&*x).iter().fold(true, |o, w| o & (u(*w) == 0)), 6);
            let all = fill::<E, _>(&mut *x);
            walk(x.a(&p), &all[..n * k], k, n);
            eq(ws(x.b(&p)), &all[n * k..], 8);
            walk(x.a_b(&p).0, &all[..n * k], k, n);
            eq(ws(x.a_b(&p).1), &all[n * k..], 8);
        }
        1 => {
            let mut x = GlweCiphertext::<E>::new(&p);
            let all = fill::<E, _>(&mut *x);
            let (a, b) = x.a_b_mut(&p);
            let mut want = walk_mut(a, &all[..n * k], k, n);
            want.extend(fill::<E, _>(b));
            eq(ws(&*x), &want, 7);
            eq(ws(x.b_mut(&p)), &want[n * k..], 8);
            let mut want2 = walk_mut(x.a_mut(&p), &want[..n * k], k, n);
            want2.extend(&want[n * k..]);
            eq(ws(&*x), &want2, 7);
        }
        2 => { let c = sx::choose(0, 4) as usize; both!(E: GlweCiphertextList::<E>::new(&p, c), c, g, ciphertexts, ciphertexts_mut, &p); }
        3 => {
            let c = sx::choose(0, 4) as usize;
            let mut x = PolynomialList::<E>::new(p.dim.polynomial_degree, c);
            one!(E: x, c, n, iter, iter_mut, p.dim.polynomial_degree);
        }
        _ => {
            let mut x = GlweSecretKey::<E>::generate_binary(&p);
            one!(E: x, k, n, s, s_mut, &p);
            let all = ws::<E, _>(&*x).to_vec();
            eq(x.to_lwe_secret_key().s(), &all, 9);
            let got: Vec<Vec<E>> = x.s_par(&p).map(|q| ws::<E, _>(q).to_vec()).collect();
            eq(&got.concat(), &all, 9);
        }
    }
    sx::reach(1);
}
fn key_containers<E: W>() {
    let (p, n, k) = dims(&[1, 2, 4]);
    let c = count();
    let r = radix(c, 3);
    let lev = n * (k + 1) * c;
    match sx::choose(0, 7) {
        0 => { both!(E: GgswCiphertext::<E>::new(&p, &r), k + 1, lev, rows, rows_mut, &p, &r); }
        1 => { both!(E: GlweKeyswitchKey::<E>::new(&p, &r), k, lev, rows, rows_mut, &p, &r); }
        2 => { both!(E: AutomorphismKey::<E>::new(&p, &r), n.ilog2() as usize, lev * k, keyswitch_keys, keyswitch_keys_mut, &p, &r); }
        3 => { both!(E: GlevCiphertext::<E>::new(&p, &r), c, n * (k + 1), glwe_ciphertexts, glwe_ciphertexts_mut, &p); }
        4 => { let m = sx::choose(1, 3) as usize; both!(E: BootstrapKey::<E>::new(&lwe(m), &p, &r), m, lev * (k + 1), rows, rows_mut, &p, &r); }
        5 => { both!(E: BlindRotationShift::<E>::new(&p, &r), n.ilog2() as usize, lev * (k + 1), rows, rows_mut, &p, &r); }
        6 => { let m = sx::choose(1, 3) as usize; both!(E: PublicFunctionalKeyswitchKey::<E>::new(&lwe(m), &p, &r), m, lev, glevs, glevs_mut, &p, &r); }
        _ => {
            let q = glwe(n, 1);
            let mut x = RlwePublicKey::<E>::new(&q);
            eq(ws::<E, _>(&*x), &vec![<E as num::Zero>::zero(); 2 * n], 6);
            let all = fill::<E, _>(&mut *x);
            eq(ws(x.zero_encryption()), &all, 5);
            eq(ws(x.p0_p1(&q).0), &all[..n], 5);
            eq(ws(x.p0_p1(&q).1), &all[n..], 5);
            let all = fill::<E, _>(x.zero_encryption_mut());
            eq(ws(&*x), &all, 7);
        }
    }
    sx::reach(1);
}
fn functional<E: W>() {
    let n = [1, 2][sx::choose(0, 1) as usize];
    let k = sx::choose(1, 2) as usize;
    let (p, m, c) = (glwe(n, k), sx::choose(1, 2) as usize, sx::choose(1, 2) as usize);
    let (r, q, lev) = (radix(c, 3), lwe(m), n * (k + 1) * c);
    let z = sx::choose(1, 2) as usize;
    let pf = || PrivateFunctionalKeyswitchKey::<E>::new(&q, &p, &r, &PrivateFunctionalKeyswitchLweCount(z));
    let cb = || CircuitBootstrappingKeyswitchKeys::<E>::new(&q, &p, &r);
    match sx::choose(0, 3) {
        0 => { both!(E: pf(), (m + 1) * z, lev, glevs, glevs_mut, &p, &r); }
        1 => { both!(E: cb(), k + 1, lev * (m + 1), keys, keys_mut, &q, &p, &r); }
        2 => parallel!(E: pf(), (m + 1) * z, lev, glevs_par, glevs_par_mut, &p, &r),
        _ => parallel!(E: cb(), k + 1, lev * (m + 1), keys_par, keys_par_mut, &q, &p, &r),
    }
    sx::reach(1);
}
fn boot_par<E: W>() {
    let (p, n, k) = dims(&[1, 2]);
    let (c, m) = (count(), sx::choose(1, 5) as usize);
    let r = radix(c, 3);
    parallel!(E: BootstrapKey::<E>::new(&lwe(m), &p, &r), m, n * (k + 1) * c * (k + 1), rows_par, rows_par_mut, &p, &r);
    sx::reach(1);
}
/// frequency-domain containers (words: two per complex number)
fn fft_containers() {
    let (p, n, k) = dims(&[2, 4]);
    let c = count();
    let r = radix(c, 3);
    let g = n * (k + 1);
    let lev = g * c;
    match sx::choose(0, 6) {
        0 => {
            let mut x = GlweCiphertextFft::new(&p);
            eq(ws::<u64, _>(&*x), &vec![0; g], 6);
            let all = fill::<u64, _>(&mut *x);
            walk(x.a(&p), &all[..n * k], k, n);
            eq(ws(x.b(&p)), &all[n * k..], 8);
            let (a, b) = x.a_b_mut(&p);
            let mut want = walk_mut(a, &all[..n * k], k, n);
            want.extend(fill::<u64, _>(b));
            eq(ws(&*x), &want, 7);
            eq(ws(x.b_mut(&p)), &want[n * k..], 8);
        }
        1 => {
            let mut x = both!(u64: GgswCiphertextFft::new(&p, &r), k + 1, lev, rows, rows_mut, &p, &r);
            let mut it = x.rows_mut(&p, &r);
            let y = it.next().unwrap();
            one!(u64: y, c, g, glwe_ciphertexts, glwe_ciphertexts_mut, &p);
        }
        2 => { both!(u64: GlweKeyswitchKeyFft::new(&p, &r), k, lev, rows, rows_mut, &p, &r); }
        3 => { both!(u64: AutomorphismKeyFft::new(&p, &r), n.ilog2() as usize, lev * k, keyswitch_keys, keyswitch_keys_mut, &p, &r); }
        4 => { let m = sx::choose(1, 3) as usize; both!(u64: BootstrapKeyFft::new(&lwe(m), &p, &r), m, lev * (k + 1), rows, rows_mut, &p, &r); }
        5 => { both!(u64: BlindRotationShiftFft::new(&p, &r), n.ilog2() as usize, lev * (k + 1), rows, rows_mut, &p, &r); }
        _ => {
            let k = k.min(2);
            let p = glwe(n, k);
            both!(u64: SchemeSwitchKeyFft::new(&p, &r), k * (k + 1) / 2, n * (k + 1) * c, glev_ciphertexts, glev_ciphertexts_mut, &p, &r);
        }
    }
    sx::reach(1);
}
/// scheme switching keys: pair (i, j) is found at its place among the triangular pairs, whatever the order of i and j; others are refused
fn pairs() {
    let k = sx::choose(1, 4) as usize;
    let (p, r) = (glwe(2, k), radix(1, 3));
    let sz = 2 * (k + 1);
    let mut x = SchemeSwitchKey::<u64>::new(&p, &r);
    let mut y = SchemeSwitchKeyFft::new(&p, &r);
    let (all, ally) = (fill::<u64, _>(&mut *x), fill::<u64, _>(&mut *y));
    sx::assert(all.len() == k * (k + 1) / 2 * sz && ally.len() == all.len(), 1);
    let mut at = 0;
    for i in 0..k {
        for j in i..k {
            let (w, wy) = (&all[at * sz..(at + 1) * sz], &ally[at * sz..(at + 1) * sz]);
            eq(ws(x.get_glev_at_index(i, j, &p, &r)), w, 2);
            eq(ws(x.get_glev_at_index(j, i, &p, &r)), w, 2);
            eq(ws(x.get_glev_at_index_mut(i, j, &p, &r)), w, 2);
            eq(ws(y.get_glev_at_index(i, j, &p, &r)), wy, 3);
            eq(ws(y.get_glev_at_index(j, i, &p, &r)), wy, 3);
            eq(ws(y.get_glev_at_index_mut(j, i, &p, &r)), wy, 3);
            at += 1;
        }
    }
    sx::reach(1);
}
fn pairs_bad() {
    let k = sx::choose(1, 4) as usize;
    let (p, r) = (glwe(2, k), radix(1, 3));
    let (i, j) = (sx::u64() as usize, sx::u64() as usize);
    sx::assume(i >= k || j >= k);
    sx::panic_ok(true);
    match sx::choose(0, 3) {
        0 => { SchemeSwitchKey::<u64>::new(&p, &r).get_glev_at_index(i, j, &p, &r); }
        1 => { SchemeSwitchKey::<u64>::new(&p, &r).get_glev_at_index_mut(i, j, &p, &r); }
        2 => { SchemeSwitchKeyFft::new(&p, &r).get_glev_at_index(i, j, &p, &r); }
        _ => { SchemeSwitchKeyFft::new(&p, &r).get_glev_at_index_mut(i, j, &p, &r); }
    }
    sx::assert(false, 1);
}
/// equality, copies, clearing
fn copies<E: W>() {
    let n = sx::choose(1, 4) as usize;
    macro_rules! go { ($new:expr, $ref:ident) => {{
        let (mut x, mut y) = ($new, $new);
        let (a, b) = (fill::<E, _>(&mut *x), fill::<E, _>(&mut *y));
        let same = a.iter().zip(&b).fold(true, |o, (x, y)| o & (u(*x) == u(*y)));
        sx::assert((x == y) == same, 1);
        sx::assert((*x == *y) == same, 1);
        let (z, o) = (x.clone(), x.as_ref().to_owned());
        eq(ws(&*z), &a, 2);
        eq(ws(&*o), &a, 2);
        y.clone_from_ref(&*x);
        eq(ws(&*y), &a, 3);
        x.clear();
        eq(ws(&*x), &vec![<E as num::Zero>::zero(); a.len()], 4);
        eq(ws(&*y), &a, 5);
        eq(ws(&*z), &a, 5);
        eq(ws(&*o), &a, 5);
    }} }
    match sx::choose(0, 4) {
        0 => go!(LweCiphertext::<E>::new(&lwe(n)), LweCiphertextRef),
        1 => go!(GlweCiphertext::<E>::new(&glwe([1, 2, 4, 1][n - 1], 1)), GlweCiphertextRef),
        2 => go!(GgswCiphertext::<E>::new(&glwe(1, 1), &radix(n, 2)), GgswCiphertextRef),
        3 => go!(Polynomial::<E>::zero(n), PolynomialRef),
        _ => go!(BootstrapKey::<E>::new(&lwe(1), &glwe(1, 1), &radix(1, 2)), BootstrapKeyRef),
    }
    sx::reach(1);
}
/// sums, differences and negatives of ciphertexts and keys, by value, by reference, in place
fn group<E: W>() {
    use num::traits::{WrappingAdd, WrappingNeg, WrappingSub};
    let n = sx::choose(1, 3) as usize;
    macro_rules! go { ($new:expr) => {{
        let (mut x, mut y) = ($new, $new);
        let (a, b) = (fill::<E, _>(&mut *x), fill::<E, _>(&mut *y));
        let add: Vec<E> = a.iter().zip(&b).map(|(p, q)| p.wrapping_add(q)).collect();
        let sub: Vec<E> = a.iter().zip(&b).map(|(p, q)| p.wrapping_sub(q)).collect();
        let neg: Vec<E> = a.iter().map(|p| <E as num::Zero>::zero().wrapping_sub(p)).collect();
        eq(ws(&*(x.as_ref() + y.as_ref())), &add, 1);
        eq(ws(&*(x.as_ref() - y.as_ref())), &sub, 2);
        eq(ws(&*(-x.as_ref())), &neg, 3);
        eq(ws(&*WrappingAdd::wrapping_add(&x, &y)), &add, 1);
        eq(ws(&*WrappingSub::wrapping_sub(&x, &y)), &sub, 2);
        eq(ws(&*WrappingNeg::wrapping_neg(&x)), &neg, 3);
        eq(ws(&*(x.clone() + y.clone())), &add, 1);
        eq(ws(&*(x.clone() - y.clone())), &sub, 2);
        eq(ws(&*(-x.clone())), &neg, 3);
        let mut z = x.clone();
        z += y.clone();
        eq(ws(&*z), &add, 1);
        let mut z = x.clone();
        z -= y.clone();
        eq(ws(&*z), &sub, 2);
        eq(ws(&*x), &a, 4);
        eq(ws(&*y), &b, 4);
    }} }
    match sx::choose(0, 3) {
        0 => go!(LweCiphertext::<E>::new(&lwe(n))),
        1 => go!(GlweCiphertext::<E>::new(&glwe(1 << (n - 1), 2))),
        2 => go!(LweSecretKey::<E>::generate_binary(&lwe(n))),
        _ => go!(GlweSecretKey::<E>::generate_uniform(&glwe(1 << (n - 1), 2))),
    }
    sx::reach(1);
}
/// polynomials: construction, maps, reinterpretation
fn polynomials<E: W>() {
    let n = sx::choose(1, 5) as usize;
    let v = any_vec::<E>(n);
    let p = Polynomial::new(&v);
    eq(p.coeffs(), &v, 1);
    sx::assert(p.len() == n && p.degree().0 == n && !p.is_empty(), 2);
    eq(&inner(p.as_torus().coeffs()), &v, 3);
    eq(&p.as_wrapping().coeffs().iter().map(|x| x.0).collect::<Vec<_>>(), &v, 3);
    let m = E::any();
    let f = |x: &E| x.wrapping_mul(&m);
    let want: Vec<E> = v.iter().map(f).collect();
    eq(p.map(f).coeffs(), &want, 4);
    let mut q = Polynomial::new(&any_vec::<E>(n));
    p.map_into(&mut q, f);
    eq(q.coeffs(), &want, 4);
    eq(v.iter().copied().collect::<Polynomial<E>>().coeffs(), &v, 5);
    eq(Polynomial::<E>::zero(n).coeffs(), &vec![<E as num::Zero>::zero(); n], 6);
    let w = any_vec::<E>(n);
    q.coeffs_mut().copy_from_slice(&w);
    eq(q.coeffs(), &w, 7);
    let wr = q.as_wrapping_mut();
    wr.coeffs_mut()[n - 1] = std::num::Wrapping(v[0]);
    eq(&q.coeffs()[..n - 1], &w[..n - 1], 8);
    eq(&q.coeffs()[n - 1..], &v[..1], 8);
    eq(p.coeffs(), &v, 9);
    sx::reach(1);
}
/// entity-wise transforms at degree 2, where they are exact: word pairs become complex numbers in the same order, and back
fn convert() {
    type E = u32;
    let k = sx::choose(1, 2) as usize;
    let (p, r) = (glwe(2, k), radix(sx::choose(1, 2) as usize, 3));
    fn there(x: &[E], y: &[f64], code: u32) {
        sx::assert(x.len() == y.len(), code);
        for (a, b) in x.iter().zip(y) {
            sx::assert(*a as i32 as f64 == *b || *a as f64 == *b, code);
        }
    }
    fn fl<R: ?Sized>(r: &R) -> &[f64] { unsafe { std::slice::from_raw_parts(r as *const R as *const f64, size_of_val(r) / 8) } }
    macro_rules! go { ($x:expr, $y:expr, ($($a:expr),*)) => {{
        let mut x = $x;
        let all = fill::<E, _>(&mut *x);
        let mut y = $y;
        x.fft(&mut y, $($a),*);
        there(&all, fl(&*y), 1);
        eq(ws(&*x), &all, 2);
        (x, y, all)
    }} }
    macro_rules! goback { ($x:expr, $y:expr, ($($a:expr),*)) => {{
        let (mut x, y, all) = go!($x, $y, ($($a),*));
        fill::<E, _>(&mut *x);
        y.ifft(&mut x, $($a),*);
        eq(ws(&*x), &all, 3);
    }} }
    let m = sx::choose(1, 2) as usize;
    match sx::choose(0, 5) {
        0 => goback!(GlweCiphertext::<E>::new(&p), GlweCiphertextFft::new(&p), (&p)),
        1 => goback!(GgswCiphertext::<E>::new(&p, &r), GgswCiphertextFft::new(&p, &r), (&p, &r)),
        2 => goback!(GlweKeyswitchKey::<E>::new(&p, &r), GlweKeyswitchKeyFft::new(&p, &r), (&p, &r)),
        3 => {
            let (mut x, y, all) = go!(BootstrapKey::<E>::new(&lwe(m), &p, &r), BootstrapKeyFft::new(&lwe(m), &p, &r), (&lwe(m), &p, &r));
            fill::<E, _>(&mut *x);
            y.ifft(&mut x, &p, &r);
            eq(ws(&*x), &all, 3);
        }
        4 => goback!(SchemeSwitchKey::<E>::new(&p, &r), SchemeSwitchKeyFft::new(&p, &r), (&p, &r)),
        _ => { go!(AutomorphismKey::<E>::new(&p, &r), AutomorphismKeyFft::new(&p, &r), (&p, &r)); }
    }
    sx::reach(1);
}
harness! {
fn h_ent_lwe64() { lwe_containers::<u64>() }
fn h_ent_lwe32() { lwe_containers::<u32>() }
fn h_ent_lweparts64() { lwe_parts::<u64>() }
fn h_ent_lweparts32() { lwe_parts::<u32>() }
fn h_ent_glwe64() { glwe_containers::<u64>() }
fn h_ent_glwe32() { glwe_containers::<u32>() }
fn h_ent_keys64() { key_containers::<u64>() }
fn h_ent_keys32() { key_containers::<u32>() }
fn h_ent_func64() { functional::<u64>() }
fn h_ent_func32() { functional::<u32>() }
fn h_ent_par64() { boot_par::<u64>() }
fn h_ent_fft() { fft_containers() }
fn h_ent_pairs() { pairs() }
fn h_ent_pairs_bad() { pairs_bad() }
fn h_ent_copies64() { copies::<u64>() }
fn h_ent_copies32() { copies::<u32>() }
fn h_ent_group64() { group::<u64>() }
fn h_ent_group32() { group::<u32>() }
fn h_ent_poly64() { polynomials::<u64>() }
fn h_ent_poly32() { polynomials::<u32>() }
fn h_ent_convert() { convert() }
}
