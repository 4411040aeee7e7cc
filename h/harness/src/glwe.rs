//! GLWE / RLWE encryption, linear operations on ciphertexts, sample extraction
use crate::harness;
use crate::util::*;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::ciphertext::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::homomorphisms::*;
use sunscreen_tfhe::*;

/// sizes (k, N) explored
fn dims() -> GlweDef {
    let k = sx::choose(1, 3) as usize;
    let n = 1 << sx::choose(0, 2);
    glwe(n, k)
}
/// decrypt(encrypt(m)) = m, also into used ciphertexts; masks fresh, errors of the configured deviation
fn roundtrip<S: W>(p: GlweDef, bits: u32) {
    let (n, k) = (p.dim.polynomial_degree.0, p.dim.size.0);
    let b = ((1u64 << (S::BITS - bits - 1)) - 1).min(1 << 52);
    noise(b, -(S::BITS as i32));
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let m: Vec<S> = (0..n).map(|_| S::of(sx::bits(bits))).collect();
    rng_reset();
    let pm = Polynomial::<S>::new(&m);
    let ct = sk.encode_encrypt_glwe(&pm, &p, PlaintextBits(bits));
    let ph = glwe_phase(&ct, &s, &p);
    sx::assert(stds() == n && std_all(STD), 1);
    let mut errs = vec![];
    for i in 0..n {
        let e = ph[i].wrapping_sub(&S::of(u(m[i]) << (S::BITS - bits)));
        sx::assert(S::s(e).unsigned_abs() <= b, 2);
        errs.push(e);
    }
    let d = sk.decrypt_decode_glwe(&ct, &p, PlaintextBits(bits));
    for i in 0..n {
        sx::assert(d.coeffs()[i] == m[i], 3);
    }
    let masks: Vec<S> = ct.a(&p).flat_map(|x| x.coeffs().iter().map(|c| c.inner()).collect::<Vec<_>>()).collect();
    sx::assert(masks.len() == n * k, 4);
    fresh_words(&masks, 5);
    sx::reach(1);
}
fn reuse<S: W>(p: GlweDef) {
    let n = p.dim.polynomial_degree.0;
    let b = 1u64 << 20;
    noise(b, -(S::BITS as i32));
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let m = any_vec::<S>(n);
    let mut ct = any_glwe::<S>(&p);
    encrypt_glwe_ciphertext_secret(&mut ct, &tpoly(&m), &sk, &p);
    let ph = glwe_phase(&ct, &s, &p);
    for i in 0..n {
        sx::assert(S::s(ph[i].wrapping_sub(&m[i])).unsigned_abs() <= b, 1);
    }
    let mut d = tpoly(&any_vec::<S>(n));
    decrypt_glwe_ciphertext(&mut d, &ct, &sk, &p);
    same(d.coeffs(), |i| ph[i], 2);
    // without noise the phase is the message exactly
    let p0 = GlweDef { dim: p.dim, std: sunscreen_tfhe::rand::Stddev(0.0) };
    let mut ct = any_glwe::<S>(&p);
    encrypt_glwe_ciphertext_secret(&mut ct, &tpoly(&m), &sk, &p0);
    let ph = glwe_phase(&ct, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == m[i], 3);
    }
    let mut ct = any_glwe::<S>(&p);
    trivially_encrypt_glwe_ciphertext(&mut ct, &tpoly(&m), &p);
    let ph = glwe_phase(&ct, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == m[i], 4);
    }
    for a in ct.a(&p) {
        same(a.coeffs(), |_| S::of(0), 5);
    }
    sx::reach(1);
}
fn trivial_high() {
    let p = glwe(1 << sx::choose(0, 2), sx::choose(1, 2) as usize);
    let n = p.dim.polynomial_degree.0;
    let bits = sx::choose(1, 63) as u32;
    let m: Vec<u64> = (0..n).map(|_| sx::bits(bits)).collect();
    let ct = high_level::encryption::trivial_glwe(&Polynomial::<u64>::new(&m), &p, PlaintextBits(bits));
    let sk = GlweSecretKey::<u64>::generate_uniform(&p);
    let d = high_level::encryption::decrypt_glwe(&ct, &sk, &p, PlaintextBits(bits));
    for i in 0..n {
        sx::assert(d.coeffs()[i] == m[i], 1);
    }
    sx::reach(1);
}
fn keys<S: W>(p: GlweDef) {
    let l = p.dim.polynomial_degree.0 * p.dim.size.0;
    rng_reset();
    let sk = GlweSecretKey::<S>::generate_binary(&p);
    let w = glwe_key(&sk, &p);
    sx::assert(w.len() == l, 1);
    binary_words(&w, 2);
    let e = sk.to_lwe_secret_key();
    for i in 0..l {
        sx::assert(e.s()[i] == w[i], 4);
    }
    rng_reset();
    let sk = GlweSecretKey::<S>::generate_uniform(&p);
    fresh_words(&glwe_key(&sk, &p), 5);
    sx::reach(1);
}
/// public-key RLWE: phase = message + e1 + e_pk*u - e0*s, with the returned randomness, and it decrypts
fn public<S: W>(n: usize, bits: u32) {
    poison(4, n);
    let p = glwe(n, 1);
    let b = ((1u64 << (S::BITS - bits - 1)) - 1) / (2 * n as u64 + 1);
    let b = b.min(1 << 52);
    noise(b, -(S::BITS as i32));
    let sk = GlweSecretKey::<S>::generate_binary(&p);
    let s = glwe_key(&sk, &p);
    let mut pk = RlwePublicKey::<S>::new(&p);
    // a used key object
    for x in pk.zero_encryption_mut().b_mut(&p).coeffs_mut() {
        *x = t(S::any());
    }
    rng_reset();
    rlwe_generate_public_key(&mut pk, &sk, &p);
    let epk = glwe_phase(pk.zero_encryption(), &s, &p);
    sx::assert(stds() == n && std_all(STD), 1);
    for e in &epk {
        sx::assert(S::s(*e).unsigned_abs() <= b, 2);
    }
    let masks: Vec<S> = pk.zero_encryption().a(&p).flat_map(|x| x.coeffs().iter().map(|c| c.inner()).collect::<Vec<_>>()).collect();
    fresh_words(&masks, 3);
    let l0 = rng_len();
    std_reset();
    let m: Vec<S> = (0..n).map(|_| S::of(sx::bits(bits))).collect();
    let mut ct = any_glwe::<S>(&p);
    let r = rlwe_encode_encrypt_public(&mut ct, &Polynomial::new(&m), &pk, &PlaintextBits(bits), &p);
    sx::assert(stds() == 2 * n && std_all(STD), 5);
    binary_words_in(r.u.coeffs(), l0, rng_len(), 6);
    let e = |x: &PolynomialRef<Torus<S>>| x.coeffs().iter().map(|c| c.inner()).collect::<Vec<S>>();
    let (e0, e1) = (e(&r.e0), e(&r.e1));
    for x in e0.iter().chain(&e1) {
        sx::assert(S::s(*x).unsigned_abs() <= b, 8);
    }
    let mut want: Vec<S> = (0..n).map(|i| S::of(u(m[i]) << (S::BITS - bits)).wrapping_add(&e1[i])).collect();
    ref_mad(&mut want, &epk, r.u.coeffs());
    let ne0: Vec<S> = e0.iter().map(|x| x.wrapping_neg()).collect();
    ref_mad(&mut want, &ne0, &s);
    let ph = glwe_phase(&ct, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == want[i], 9);
    }
    sx::reach(1);
    let d = sk.decrypt_decode_glwe(&ct, &p, PlaintextBits(bits));
    for i in 0..n {
        sx::assert(d.coeffs()[i] == m[i], 10);
    }
}
// ---- linear operations: the phase is a module homomorphism, for every key ----
fn lin_lwe<S: W>(n: usize) {
    let p = lwe(n);
    let s = any_vec::<S>(n);
    let (a, b) = (any_lwe::<S>(&p), any_lwe::<S>(&p));
    let (pa, pb) = (lwe_phase(&a, &s, &p), lwe_phase(&b, &s, &p));
    let mut c = a.clone();
    add_lwe_inplace(&mut c, &b, &p);
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_add(&pb), 1);
    let r = S::any();
    let mut c = any_lwe::<S>(&p);
    lwe_rotate(&mut c, &a, t(r), &p);
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_add(&r), 2);
    sx::reach(1);
    let c = &*a + &*b;
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_add(&pb), 3);
    let c = &*a - &*b;
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_sub(&pb), 4);
    let c = -&*a;
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_neg(), 5);
    let mut c = a.clone();
    c += b.clone();
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_add(&pb), 6);
    let mut c = a.clone();
    c -= b.clone();
    sx::assert(lwe_phase(&c, &s, &p) == pa.wrapping_sub(&pb), 7);
}
fn lin_glwe<S: W>(p: GlweDef) {
    let n = p.dim.polynomial_degree.0;
    let s = any_vec::<S>(n * p.dim.size.0);
    let (a, b, c) = (any_glwe::<S>(&p), any_glwe::<S>(&p), any_glwe::<S>(&p));
    let (pa, pb, pc) = (glwe_phase(&a, &s, &p), glwe_phase(&b, &s, &p), glwe_phase(&c, &s, &p));
    let chk = |x: &GlweCiphertextRef<S>, f: &dyn Fn(usize) -> S, code: u32| {
        let ph = glwe_phase(x, &s, &p);
        for i in 0..n {
            sx::assert(ph[i] == f(i), code);
        }
    };
    let mut o = c.clone();
    add_glwe_ciphertexts(&mut o, &a, &b, &p);
    chk(&o, &|i| pa[i].wrapping_add(&pb[i]), 1);
    let mut o = c.clone();
    sub_glwe_ciphertexts(&mut o, &a, &b, &p);
    chk(&o, &|i| pa[i].wrapping_sub(&pb[i]), 2);
    let mut o = c.clone();
    glwe_add_assign(&mut o, &a, &p);
    chk(&o, &|i| pc[i].wrapping_add(&pa[i]), 3);
    let mut o = c.clone();
    glwe_negate_inplace(&mut o, &p);
    chk(&o, &|i| pc[i].wrapping_neg(), 4);
    let q = any_vec::<S>(n);
    let mut o = c.clone();
    glwe_polynomial_mad(&mut o, &a, &Polynomial::new(&q), &p);
    let mut w = pc.clone();
    ref_mad(&mut w, &pa, &q);
    chk(&o, &|i| w[i], 5);
    let k = S::any();
    let mut o = c.clone();
    glwe_scalar_mad(&mut o, &a, k, &p);
    chk(&o, &|i| pc[i].wrapping_add(&pa[i].wrapping_mul(&k)), 6);
    let mut o = c.clone();
    glwe_rotate(&mut o, &a, t(k), &p);
    chk(&o, &|i| pa[i].wrapping_add(&k), 7);
    let o = &*a + &*b;
    chk(&o, &|i| pa[i].wrapping_add(&pb[i]), 8);
    let o = &*a - &*b;
    chk(&o, &|i| pa[i].wrapping_sub(&pb[i]), 9);
    let o = -&*a;
    chk(&o, &|i| pa[i].wrapping_neg(), 10);
    sx::reach(1);
}
/// end to end: homomorphic addition of encrypted messages decrypts to the sum modulo 2^bits
fn lin_end<S: W>(n: usize, bits: u32) {
    let p = lwe(n);
    noise(1 << (S::BITS - bits - 3), -(S::BITS as i32));
    let sk = LweSecretKey::<S>::generate_binary(&p);
    let (a, b) = (S::of(sx::bits(bits)), S::of(sx::bits(bits)));
    let (mut x, _) = sk.encrypt(a, &p, PlaintextBits(bits));
    let (y, _) = sk.encrypt(b, &p, PlaintextBits(bits));
    add_lwe_inplace(&mut x, &y, &p);
    sx::reach(1);
    sx::assert(u(sk.decrypt(&x, &p, PlaintextBits(bits))) == (u(a) + u(b)) & ((1 << bits) - 1), 1);
}
/// LWE modulus switching rounds every word to the nearest multiple
fn modswitch<S: W>(n: usize) {
    let p = lwe(n);
    let a = any_lwe::<S>(&p);
    let lm = sx::choose(1, 12) as u32;
    let chi = sx::choose(0, 2) as u32;
    let v = sx::choose(0, 2.min(lm as u64 - 1)) as u32;
    let mut o = a.clone();
    lwe_ciphertext_modulus_switch(&mut o, chi, v, lm, &p);
    sx::reach(1);
    let want = |x: S| {
        let x = u(x) << chi & if S::BITS == 32 { 0xffff_ffff } else { u64::MAX };
        let sh = S::BITS - (lm - v);
        // nearest multiple, ties up, modulo 2^lm
        ((x >> sh) + (x >> (sh - 1) & 1)) << v & ((1 << lm) - 1)
    };
    let ((oa, ob), (aa, ab)) = (o.a_b(&p), a.a_b(&p));
    for i in 0..n {
        sx::assert(u(oa[i].inner()) & ((1 << lm) - 1) == want(aa[i].inner()), 1);
    }
    sx::assert(u(ob.inner()) & ((1 << lm) - 1) == want(ab.inner()), 2);
}
fn glwe_modswitch<S: W>(p: GlweDef) {
    let x = any_glwe::<S>(&p);
    let mut y = any_glwe::<S>(&p);
    let k = sx::choose(1, S::BITS as u64 - 1) as u32;
    glwe_mod_switch_and_expand_pow_2(&mut y, &x, &p, k);
    let w = |v: S| S::of((u(v) >> k) + (u(v) >> (k - 1) & 1));
    for (yy, xx) in y.a(&p).zip(x.a(&p)) {
        same(yy.coeffs(), |i| w(xx.coeffs()[i].inner()), 1);
    }
    same(y.b(&p).coeffs(), |i| w(x.b(&p).coeffs()[i].inner()), 2);
    sx::reach(1);
}
/// the extracted LWE ciphertext has the h-th coefficient's phase under the flattened key, and nothing else
fn extract<S: W>(p: GlweDef) {
    let (n, k) = (p.dim.polynomial_degree.0, p.dim.size.0);
    let s = any_vec::<S>(n * k);
    let c = any_glwe::<S>(&p);
    let ph = glwe_phase(&c, &s, &p);
    let l = p.as_lwe_def();
    for h in 0..n {
        let mut o = any_lwe::<S>(&l);
        sample_extract(&mut o, &c, h, &p);
        sx::assert(lwe_phase(&o, &s, &l) == ph[h], 1);
    }
    sx::reach(1);
}
fn extract_end(n: usize, k: usize) {
    let p = glwe(n, k);
    noise(1 << 30, -64);
    let sk = GlweSecretKey::<u64>::generate_binary(&p);
    let m: Vec<u64> = (0..n).map(|_| sx::bits(3)).collect();
    let ct = high_level::encryption::encrypt_glwe(&Polynomial::<u64>::new(&m), &sk, &p, PlaintextBits(3));
    sx::reach(1);
    for h in 0..n {
        let o = high_level::evaluation::sample_extract(&ct, &p, h);
        let d = high_level::encryption::decrypt_lwe(&o, sk.to_lwe_secret_key(), &p.as_lwe_def(), PlaintextBits(3));
        sx::assert(d == m[h], 1);
    }
}
harness! {
fn h_glwe_rt64() { let p = dims(); roundtrip::<u64>(p, [1, 4, 13][sx::choose(0, 2) as usize]) }
fn h_glwe_rt32() { let p = dims(); roundtrip::<u32>(p, [1, 4][sx::choose(0, 1) as usize]) }
fn h_glwe_reuse64() { reuse::<u64>(dims()) }
fn h_glwe_reuse32() { reuse::<u32>(dims()) }
fn h_glwe_trivial() { trivial_high() }
fn h_glwe_keys64() { keys::<u64>(dims()) }
fn h_glwe_keys32() { keys::<u32>(dims()) }
fn h_rlwe_public64() { public::<u64>(1 << sx::choose(0, 1), 2) }
fn h_rlwe_public32() { public::<u32>(1 << sx::choose(0, 1), 2) }
fn h_lin_lwe64() { lin_lwe::<u64>(sx::choose(1, 5) as usize) }
fn h_lin_lwe32() { lin_lwe::<u32>(sx::choose(1, 5) as usize) }
fn h_lin_glwe64() { lin_glwe::<u64>(dims()) }
fn h_lin_glwe32() { lin_glwe::<u32>(dims()) }
fn h_lin_end64() { lin_end::<u64>(2, sx::choose(1, 8) as u32) }
fn h_lin_end32() { lin_end::<u32>(2, sx::choose(1, 8) as u32) }
fn h_lwe_modswitch64() { modswitch::<u64>(2) }
fn h_lwe_modswitch32() { modswitch::<u32>(2) }
fn h_glwe_modswitch64() { glwe_modswitch::<u64>(glwe(2, 1)) }
fn h_glwe_modswitch32() { glwe_modswitch::<u32>(glwe(2, 1)) }
fn h_extract64() { extract::<u64>(glwe(1 << sx::choose(0, 3), sx::choose(1, 3) as usize)) }
fn h_extract32() { extract::<u32>(glwe(1 << sx::choose(0, 3), sx::choose(1, 3) as usize)) }
fn h_extract_end() { extract_end(1 << sx::choose(0, 2), sx::choose(1, 2) as usize) }
}
