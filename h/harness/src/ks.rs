//! Key switching: LWE, GLWE (both domains), private and public functional
use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::*;

fn rad() -> RadixDecomposition { radix(sx::choose(1, 3) as usize, [1, 4, 10][sx::choose(0, 2) as usize]) }
fn level<S: W>(r: &RadixDecomposition, j: usize) -> usize { S::BITS as usize - r.radix_log.0 * (j + 1) }
fn fill_lwe<S: W>(c: &mut LweCiphertextRef<S>, p: &LweDef) {
    let (a, b) = c.a_b_mut(p);
    for x in a {
        *x = t(S::any());
    }
    *b = t(S::any());
}
fn lwe_key<S: W>(k: &LweSecretKeyRef<S>) -> Vec<S> { k.s().to_vec() }
/// every entry of a key-switching key encrypts its scaled key word under the new key, with fresh randomness
fn ksk_lwe<S: W>() {
    let (po, pn) = (lwe(sx::choose(1, 2) as usize), lwe(sx::choose(1, 3) as usize));
    let r = rad();
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    let (ko, kn) = (any_lwe_key::<S>(&po), any_lwe_key::<S>(&pn));
    let mut k = LweKeyswitchKey::<S>::new(&po, &pn, &r);
    for row in k.rows_mut(&pn, &r) {
        for c in row.lwe_ciphertexts_mut(&pn) {
            fill_lwe(c, &pn);
        }
    }
    rng_reset();
    generate_keyswitch_key_lwe(&mut k, &ko, &kn, &po, &pn, &r);
    let (so, s) = (lwe_key(&ko), lwe_key(&kn));
    let mut ms = vec![];
    let mut rows = 0;
    for (i, row) in k.rows(&pn, &r).enumerate() {
        let mut cols = 0;
        for (j, c) in row.lwe_ciphertexts(&pn).enumerate() {
            near(&[lwe_phase(c, &s, &pn)], &[so[i] << level::<S>(&r, j)], b, 1);
            ms.extend(c.a_b(&pn).0.iter().map(|x| x.inner()));
            cols += 1;
        }
        sx::assert(cols == r.count.0, 2);
        rows += 1;
    }
    sx::assert(rows == po.dim.0, 2);
    sx::assert(stds() == rows * r.count.0 && std_all(STD), 3);
    fresh_words(&ms, 4);
    sx::reach(1);
}
/// the switched ciphertext is b minus the digit-weighted rows, for arbitrary key-switching key contents
fn ks_lwe<S: W>() {
    let (po, pn) = (lwe(sx::choose(1, 3) as usize), lwe(sx::choose(1, 3) as usize));
    let r = rad();
    poison(4, 4);
    let s = any_vec::<S>(pn.dim.0);
    let mut k = LweKeyswitchKey::<S>::new(&po, &pn, &r);
    for row in k.rows_mut(&pn, &r) {
        for c in row.lwe_ciphertexts_mut(&pn) {
            fill_lwe(c, &pn);
        }
    }
    let ct = any_lwe::<S>(&po);
    let mut o = any_lwe::<S>(&pn);
    keyswitch_lwe_to_lwe(&mut o, &ct, &k, &po, &pn, &r);
    let (a, b) = ct.a_b(&po);
    let mut want = b.inner();
    for (x, row) in inner(a).iter().zip(k.rows(&pn, &r)) {
        for (d, c) in digits(&[*x], &r).iter().zip(row.lwe_ciphertexts(&pn)) {
            want = want.wrapping_sub(&d[0].wrapping_mul(&lwe_phase(c, &s, &pn)));
        }
    }
    sx::assert(lwe_phase(&o, &s, &pn) == want, 1);
    sx::reach(1);
}
/// with a noise-free key the phase is kept up to rounding the mask
fn ks_lwe_end<S: W>() {
    let (po, pn) = (lwe(sx::choose(1, 3) as usize), lwe(sx::choose(1, 2) as usize));
    let r = rad();
    let (ko, kn) = (any_lwe_key::<S>(&po), any_lwe_key::<S>(&pn));
    let pz = LweDef { dim: pn.dim, std: Stddev(0.0) };
    let mut k = LweKeyswitchKey::<S>::new(&po, &pn, &r);
    generate_keyswitch_key_lwe(&mut k, &ko, &kn, &po, &pz, &r);
    let ct = any_lwe::<S>(&po);
    let mut o = LweCiphertext::<S>::new(&pn);
    keyswitch_lwe_to_lwe(&mut o, &ct, &k, &po, &pn, &r);
    let (a, b) = ct.a_b(&po);
    let mut want = b.inner();
    for (x, s) in inner(a).iter().zip(lwe_key(&ko)) {
        want = want.wrapping_sub(&rounded(*x, &r).wrapping_mul(&s));
    }
    sx::assert(lwe_phase(&o, &lwe_key(&kn), &pn) == want, 1);
    sx::reach(1);
}
fn dims() -> GlweDef {
    let k = sx::choose(1, 2) as usize;
    let n = 1 << sx::choose(0, 2);
    glwe(n, k)
}
fn ksk_glwe<S: W>(fresh: bool) {
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let r = rad();
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, 2 * n);
    let (ko, kn) = (any_glwe_key::<S>(&p), any_glwe_key::<S>(&p));
    let mut k = GlweKeyswitchKey::<S>::new(&p, &r);
    for row in k.rows_mut(&p, &r) {
        for c in row.glwe_ciphertexts_mut(&p) {
            fill_glwe(c, &p);
        }
    }
    rng_reset();
    generate_keyswitch_key_glwe(&mut k, &ko, &kn, &p, &r);
    let (so, s) = (glwe_key(&ko, &p), glwe_key(&kn, &p));
    let mut ms = vec![];
    let mut rows = 0;
    for (i, row) in k.rows(&p, &r).enumerate() {
        let mut cols = 0;
        for (j, c) in row.glwe_ciphertexts(&p).enumerate() {
            near(&glwe_phase(c, &s, &p), &scaled(&so[i * n..(i + 1) * n], &r, j), b, 1);
            for a in c.a(&p) {
                ms.extend(inner(a.coeffs()));
            }
            cols += 1;
        }
        sx::assert(cols == r.count.0, 2);
        rows += 1;
    }
    sx::assert(rows == p.dim.size.0, 2);
    sx::assert(stds() == rows * r.count.0 * n && std_all(STD), 3);
    if fresh && ms.len() <= 24 {
        fresh_words(&ms, 4);
    }
    sx::reach(1);
}
fn any_ksk<S: W>(p: &GlweDef, r: &RadixDecomposition) -> GlweKeyswitchKey<S> {
    let mut k = GlweKeyswitchKey::<S>::new(p, r);
    for row in k.rows_mut(p, r) {
        for c in row.glwe_ciphertexts_mut(p) {
            fill_glwe(c, p);
        }
    }
    k
}
fn ks_glwe<S: W>() {
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let r = rad();
    poison(4, 2 * n);
    let s = any_vec::<S>(n * p.dim.size.0);
    let k = any_ksk::<S>(&p, &r);
    let ct = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    keyswitch_glwe_to_glwe(&mut o, &ct, &k, &p, &r);
    let mut acc = vec![S::of(0); n];
    for (a, row) in ct.a(&p).zip(k.rows(&p, &r)) {
        for (d, c) in digits(&inner(a.coeffs()), &r).iter().zip(row.glwe_ciphertexts(&p)) {
            ref_mad(&mut acc, d, &glwe_phase(c, &s, &p));
        }
    }
    let ph = glwe_phase(&o, &s, &p);
    let b = inner(ct.b(&p).coeffs());
    for i in 0..n {
        sx::assert(ph[i] == b[i].wrapping_sub(&acc[i]), 1);
    }
    sx::reach(1);
}
fn ks_glwe_end<S: W>() {
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let r = rad();
    let p0 = GlweDef { dim: p.dim, std: Stddev(0.0) };
    let (ko, kn) = (any_glwe_key::<S>(&p), any_glwe_key::<S>(&p));
    let mut k = GlweKeyswitchKey::<S>::new(&p, &r);
    generate_keyswitch_key_glwe(&mut k, &ko, &kn, &p0, &r);
    let ct = any_glwe::<S>(&p);
    let mut o = GlweCiphertext::<S>::new(&p);
    keyswitch_glwe_to_glwe(&mut o, &ct, &k, &p, &r);
    let so = glwe_key(&ko, &p);
    let mut acc = vec![S::of(0); n];
    for (i, a) in ct.a(&p).enumerate() {
        let x: Vec<S> = inner(a.coeffs()).iter().map(|x| rounded(*x, &r)).collect();
        ref_mad(&mut acc, &x, &so[i * n..(i + 1) * n]);
    }
    let ph = glwe_phase(&o, &glwe_key(&kn, &p), &p);
    let b = inner(ct.b(&p).coeffs());
    for i in 0..n {
        sx::assert(ph[i] == b[i].wrapping_sub(&acc[i]), 1);
    }
    sx::reach(1);
}
/// frequency domain, componentwise
fn ks_glwe_fft<S: W>(p: GlweDef, r: RadixDecomposition, tol: u32) {
    let n = p.dim.polynomial_degree.0;
    let k = any_ksk::<S>(&p, &r);
    let mut kf = GlweKeyswitchKeyFft::<Complex<f64>>::new(&p, &r);
    k.fft(&mut kf, &p, &r);
    poison(8, 4 * n);
    let ct = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    fft_ops::keyswitch_glwe_to_glwe(&mut o, &ct, &kf, &p, &r);
    let mut want = vec![vec![S::of(0); n]; p.dim.size.0 + 1];
    for (a, row) in ct.a(&p).zip(k.rows(&p, &r)) {
        for (d, c) in digits(&inner(a.coeffs()), &r).iter().zip(row.glwe_ciphertexts(&p)) {
            for (w, q) in want.iter_mut().zip(polys(c, &p)) {
                ref_mad(w, d, &q);
            }
        }
    }
    for (i, (g, w)) in polys(&o, &p).iter().zip(&want).enumerate() {
        let w: Vec<S> = w.iter().zip(inner(ct.b(&p).coeffs())).map(|(x, b)| if i == p.dim.size.0 { b.wrapping_sub(x) } else { x.wrapping_neg() }).collect();
        close_all(g, &w, tol, 1);
    }
    sx::reach(1);
}
/// private functional key-switching keys: every entry encrypts the map of the scaled key word
fn pfksk<S: W>() {
    par(sx::choose(0, 1) == 1, 4);
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let pl = lwe(sx::choose(1, 2) as usize);
    let r = radix(sx::choose(1, 2) as usize, 4);
    let cnt = sx::choose(1, 2) as usize;
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, 2 * n);
    let (ko, kn) = (any_lwe_key::<S>(&pl), any_glwe_key::<S>(&p));
    let c = PrivateFunctionalKeyswitchLweCount(cnt);
    let mut k = PrivateFunctionalKeyswitchKey::<S>::new(&pl, &p, &r, &c);
    for g in k.glevs_mut(&p, &r) {
        for x in g.glwe_ciphertexts_mut(&p) {
            fill_glwe(x, &p);
        }
    }
    let m = any_vec::<S>(n * cnt);
    // a linear map with arbitrary coefficients that leaves the last output word alone
    let map = |o: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        let n = o.coeffs().len();
        let last = n - if n > 1 { 1 } else { 0 };
        for (i, o) in o.coeffs_mut()[..last].iter_mut().enumerate() {
            let mut v = S::of(0);
            for j in 0..x.len() {
                v = v.wrapping_add(&m[j * n + i].wrapping_mul(&x[j].inner()));
            }
            *o = t(v);
        }
    };
    rng_reset();
    generate_private_functional_keyswitch_key(&mut k, &ko, &kn, &map, &pl, &p, &r, &c);
    let (so, s) = (lwe_key(&ko), glwe_key(&kn, &p));
    let mut gl = 0;
    for (gi, g) in k.glevs(&p, &r).enumerate() {
        let (z, i) = (gi / (pl.dim.0 + 1), gi % (pl.dim.0 + 1));
        let si = if i < pl.dim.0 { so[i] } else { S::of(0).wrapping_sub(&S::of(1)) };
        let mut cols = 0;
        for (j, ct) in g.glwe_ciphertexts(&p).enumerate() {
            let v = si << level::<S>(&r, j);
            let want: Vec<S> = (0..n).map(|i| if n > 1 && i == n - 1 { S::of(0) } else { m[z * n + i].wrapping_mul(&v) }).collect();
            near(&glwe_phase(ct, &s, &p), &want, b, 1);
            cols += 1;
        }
        sx::assert(cols == r.count.0, 2);
        gl += 1;
    }
    sx::assert(gl == cnt * (pl.dim.0 + 1), 2);
    sx::assert(stds() == gl * r.count.0 * n && std_all(STD), 3);
    sx::reach(1);
}
fn any_pfksk<S: W>(pl: &LweDef, p: &GlweDef, r: &RadixDecomposition, cnt: usize) -> PrivateFunctionalKeyswitchKey<S> {
    let mut k = PrivateFunctionalKeyswitchKey::<S>::new(pl, p, r, &PrivateFunctionalKeyswitchLweCount(cnt));
    for g in k.glevs_mut(p, r) {
        for x in g.glwe_ciphertexts_mut(p) {
            fill_glwe(x, p);
        }
    }
    k
}
/// the private functional key switch is minus the digit-weighted entries, for arbitrary key contents
fn pfks<S: W>() {
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let pl = lwe(sx::choose(1, 2) as usize);
    let r = rad();
    let cnt = sx::choose(1, 2) as usize;
    poison(4, 2 * n);
    let s = any_vec::<S>(n * p.dim.size.0);
    let k = any_pfksk::<S>(&pl, &p, &r, cnt);
    let cts: Vec<_> = (0..cnt).map(|_| any_lwe::<S>(&pl)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
    let mut o = any_glwe::<S>(&p);
    private_functional_keyswitch(&mut o, &refs, &k, &pl, &p, &r, &PrivateFunctionalKeyswitchLweCount(cnt));
    let mut want = vec![S::of(0); n];
    for (gi, g) in k.glevs(&p, &r).enumerate() {
        let (z, i) = (gi / (pl.dim.0 + 1), gi % (pl.dim.0 + 1));
        let (a, b) = cts[z].a_b(&pl);
        let x = if i < pl.dim.0 { a[i].inner() } else { b.inner() };
        for (d, c) in digits(&[x], &r).iter().zip(g.glwe_ciphertexts(&p)) {
            for (w, q) in want.iter_mut().zip(glwe_phase(c, &s, &p)) {
                *w = w.wrapping_sub(&d[0].wrapping_mul(&q));
            }
        }
    }
    let ph = glwe_phase(&o, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == want[i], 1);
    }
    sx::reach(1);
}
/// the circuit bootstrapping keys: with no noise, switching x yields -S_i*phase(x) (i < k) and the constant phase(x)
fn cbs_pfks<S: W>() {
    par(sx::choose(0, 1) == 1, 4);
    let p = dims();
    let (n, kk) = (p.dim.polynomial_degree.0, p.dim.size.0);
    let p0 = GlweDef { dim: p.dim, std: Stddev(0.0) };
    let pl = lwe(2);
    let r = radix(sx::choose(1, 2) as usize, 4);
    poison(4, 2 * n);
    let (ko, kn) = (any_lwe_key::<S>(&pl), any_glwe_key::<S>(&p));
    let mut ks = CircuitBootstrappingKeyswitchKeys::<S>::new(&pl, &p, &r);
    generate_circuit_bootstrapping_pfks_keys(&mut ks, &ko, &kn, &pl, &p0, &r);
    let (so, s) = (lwe_key(&ko), glwe_key(&kn, &p));
    let ct = any_lwe::<S>(&pl);
    let (a, b) = ct.a_b(&pl);
    let mut ph = rounded(b.inner(), &r);
    for i in 0..so.len() {
        ph = ph.wrapping_sub(&rounded(a[i].inner(), &r).wrapping_mul(&so[i]));
    }
    let mut rows = 0;
    for (i, k) in ks.keys(&pl, &p, &r).enumerate() {
        let mut o = GlweCiphertext::<S>::new(&p);
        private_functional_keyswitch(&mut o, &[&ct], k, &pl, &p, &r, &PrivateFunctionalKeyswitchLweCount(1));
        let got = glwe_phase(&o, &s, &p);
        for c in 0..n {
            let want = if i < kk { s[i * n + c].wrapping_mul(&ph).wrapping_neg() } else if c == 0 { ph } else { S::of(0) };
            sx::assert(got[c] == want, 1);
        }
        rows += 1;
    }
    sx::assert(rows == kk + 1, 2);
    sx::reach(1);
}
/// public functional key-switching keys encrypt the scaled key words as constants
fn pubksk<S: W>() {
    let p = dims();
    let n = p.dim.polynomial_degree.0;
    let pl = lwe(sx::choose(1, 2) as usize);
    let r = rad();
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, 2 * n);
    let (ko, kn) = (any_lwe_key::<S>(&pl), any_glwe_key::<S>(&p));
    let mut k = PublicFunctionalKeyswitchKey::<S>::new(&pl, &p, &r);
    for g in k.glevs_mut(&p, &r) {
        for x in g.glwe_ciphertexts_mut(&p) {
            fill_glwe(x, &p);
        }
    }
    rng_reset();
    generate_public_functional_keyswitch_key(&mut k, &ko, &kn, &pl, &p, &r);
    let (so, s) = (lwe_key(&ko), glwe_key(&kn, &p));
    let mut gl = 0;
    for (i, g) in k.glevs(&p, &r).enumerate() {
        let mut cols = 0;
        for (j, ct) in g.glwe_ciphertexts(&p).enumerate() {
            let mut want = vec![S::of(0); n];
            want[0] = so[i] << level::<S>(&r, j);
            near(&glwe_phase(ct, &s, &p), &want, b, 1);
            cols += 1;
        }
        sx::assert(cols == r.count.0, 2);
        gl += 1;
    }
    sx::assert(gl == pl.dim.0, 2);
    sx::assert(stds() == gl * r.count.0 * n && std_all(STD), 3);
    sx::reach(1);
}
/// out = (0, f(b)) - sum digits(f(a_i)) * row_i, where f starts from a zero polynomial
fn pubks<S: W>(p: GlweDef, nl: usize, cnt: usize, r: RadixDecomposition, tol: u32) {
    let n = p.dim.polynomial_degree.0;
    let pl = lwe(nl);
    let mut k = PublicFunctionalKeyswitchKey::<S>::new(&pl, &p, &r);
    for g in k.glevs_mut(&p, &r) {
        for x in g.glwe_ciphertexts_mut(&p) {
            fill_glwe(x, &p);
        }
    }
    poison(8, 8 * n);
    let cts: Vec<_> = (0..cnt).map(|_| any_lwe::<S>(&pl)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
    let mut o = any_glwe::<S>(&p);
    let f = |o: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        for (o, x) in o.coeffs_mut().iter_mut().zip(x) {
            *o = *x;
        }
    };
    public_functional_keyswitch(&mut o, &refs, &k, f, &pl, &p, &r);
    let mut want = vec![vec![S::of(0); n]; p.dim.size.0 + 1];
    for (i, g) in k.glevs(&p, &r).enumerate() {
        let fa: Vec<S> = (0..n).map(|j| if j < cnt { cts[j].a_b(&pl).0[i].inner() } else { S::of(0) }).collect();
        for (d, c) in digits(&fa, &r).iter().zip(g.glwe_ciphertexts(&p)) {
            for (w, q) in want.iter_mut().zip(polys(c, &p)) {
                ref_mad(w, d, &q);
            }
        }
    }
    for (i, (g, w)) in polys(&o, &p).iter().zip(&want).enumerate() {
        let w: Vec<S> = w
            .iter()
            .enumerate()
            .map(|(j, x)| {
                let b = if i == p.dim.size.0 && j < cnt { cts[j].a_b(&pl).1.inner() } else { S::of(0) };
                b.wrapping_sub(x)
            })
            .collect();
        close_all(g, &w, tol, 1);
    }
    sx::reach(1);
}
harness! {
fn h_ksk_lwe64() { ksk_lwe::<u64>() }
fn h_ksk_lwe32() { ksk_lwe::<u32>() }
fn h_ks_lwe64() { ks_lwe::<u64>() }
fn h_ks_lwe32() { ks_lwe::<u32>() }
fn h_ks_lwe_end64() { ks_lwe_end::<u64>() }
fn h_ks_lwe_end32() { ks_lwe_end::<u32>() }
fn h_ksk_glwe64() { ksk_glwe::<u64>(true) }
fn h_ksk_glwe32() { ksk_glwe::<u32>(true) }
fn h_ks_glwe64() { ks_glwe::<u64>() }
fn h_ks_glwe32() { ks_glwe::<u32>() }
fn h_ks_glwe_end64() { ks_glwe_end::<u64>() }
fn h_ks_glwe_end32() { ks_glwe_end::<u32>() }
fn h_ks_glwe_fft64() { ks_glwe_fft::<u64>(glwe(16, 1), radix(2, 4), 46) }
fn h_ks_glwe_fft64_k2() { ks_glwe_fft::<u64>(glwe(16, 2), radix(1, 4), 46) }
fn h_ks_glwe_fft32() { ks_glwe_fft::<u32>(glwe(16, 1), radix(2, 4), 14) }
fn h_pfksk64() { pfksk::<u64>() }
fn h_pfksk32() { pfksk::<u32>() }
fn h_pfks64() { pfks::<u64>() }
fn h_pfks32() { pfks::<u32>() }
fn h_pfks_cbs64() { cbs_pfks::<u64>() }
fn h_pfks_cbs32() { cbs_pfks::<u32>() }
fn h_pubksk64() { pubksk::<u64>() }
fn h_pubksk32() { pubksk::<u32>() }
fn h_pubks_fft64() { pubks::<u64>(glwe(16, 1), 2, 3, radix(1, 4), 46) }
fn h_pubks_fft32() { pubks::<u32>(glwe(16, 1), 1, 3, radix(2, 4), 14) }
}
