//! GLEV / GGSW encryption, external product, cmux
use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::ciphertext::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::*;

fn dims() -> GlweDef {
    let k = sx::choose(1, 2) as usize;
    let n = 1 << sx::choose(0, 2);
    glwe(n, k)
}
fn rad() -> RadixDecomposition { radix(sx::choose(1, 3) as usize, [1, 4, 10][sx::choose(0, 2) as usize]) }
fn masks<S: W>(c: &GlweCiphertextRef<S>, p: &GlweDef, out: &mut Vec<S>) {
    for a in c.a(p) {
        out.extend(a.coeffs().iter().map(|x| x.inner()));
    }
}
/// every component of a GLEV encryption encrypts the scaled message under fresh randomness
fn glev_enc<S: W>(p: GlweDef, r: RadixDecomposition, fresh: bool) {
    let n = p.dim.polynomial_degree.0;
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, n * 2);
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let m = any_vec::<S>(n);
    let mut g = GlevCiphertext::<S>::new(&p, &r);
    for c in g.glwe_ciphertexts_mut(&p) {
        for x in c.b_mut(&p).coeffs_mut() {
            *x = t(S::any());
        }
    }
    rng_reset();
    encrypt_secret_glev_ciphertext(&mut g, &tpoly(&m), &sk, &p, &r);
    let mut cnt = 0;
    let mut ms = vec![];
    for (j, c) in g.glwe_ciphertexts(&p).enumerate() {
        near(&glwe_phase(c, &s, &p), &scaled(&m, &r, j), b, 1);
        masks(c, &p, &mut ms);
        cnt += 1;
    }
    sx::assert(cnt == r.count.0, 2);
    sx::assert(stds() == n * cnt && std_all(STD), 3);
    if fresh {
        fresh_words(&ms, 4);
    }
    let mut g = GlevCiphertext::<S>::new(&p, &r);
    trivially_encrypt_glev_ciphertext(&mut g, &tpoly(&m), &p, &r);
    for (j, c) in g.glwe_ciphertexts(&p).enumerate() {
        near(&glwe_phase(c, &s, &p), &scaled(&m, &r, j), 0, 6);
    }
    sx::reach(1);
}
/// rows of a GGSW encryption: -m*s_i in the first k, m in the last, each scaled by the gadget
fn ggsw_rows<S: W>(g: &GgswCiphertextRef<S>, m: &[S], s: &[S], p: &GlweDef, r: &RadixDecomposition, b: u64, code: u32) {
    let (n, k) = (p.dim.polynomial_degree.0, p.dim.size.0);
    let mut rows = 0;
    for (i, row) in g.rows(p, r).enumerate() {
        let mut want = vec![S::of(0); n];
        if i < k {
            ref_mad(&mut want, m, &s[i * n..(i + 1) * n]);
            want = want.iter().map(|x| x.wrapping_neg()).collect();
        } else {
            want = m.to_vec();
        }
        let mut cols = 0;
        for (j, c) in row.glwe_ciphertexts(p).enumerate() {
            near(&glwe_phase(c, s, p), &scaled(&want, r, j), b, code);
            cols += 1;
        }
        sx::assert(cols == r.count.0, code + 1);
        rows += 1;
    }
    sx::assert(rows == k + 1, code + 1);
}
fn ggsw_enc<S: W>(p: GlweDef, r: RadixDecomposition) {
    let n = p.dim.polynomial_degree.0;
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, n * 2);
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let bits = r.radix_log.0 as u32;
    let m: Vec<S> = (0..n).map(|_| S::of(sx::bits(bits))).collect();
    let mut g = GgswCiphertext::<S>::new(&p, &r);
    rng_reset();
    encrypt_ggsw_ciphertext(&mut g, &Polynomial::new(&m), &sk, &p, &r, PlaintextBits(bits));
    ggsw_rows(&g, &m, &s, &p, &r, b, 1);
    sx::assert(stds() == n * r.count.0 * (p.dim.size.0 + 1) && std_all(STD), 3);
    let mut d = tpoly(&any_vec::<S>(n));
    decrypt_ggsw_ciphertext(&mut d, &g, &sk, &p, &r);
    for i in 0..n {
        sx::assert(d.coeffs()[i].inner() == m[i], 4);
    }
    // scalars
    let k = S::of(sx::bits(bits));
    encrypt_ggsw_ciphertext_scalar(&mut g, k, &sk, &p, &r, PlaintextBits(bits));
    let mut m = vec![S::of(0); n];
    m[0] = k;
    ggsw_rows(&g, &m, &s, &p, &r, b, 5);
    sx::reach(1);
}
/// phase(c) + sum over mask polynomials and body of <digits, row phases>
pub fn ref_ext<S: W>(acc: &mut [S], a: &GlweCiphertextRef<S>, g: &GgswCiphertextRef<S>, s: &[S], p: &GlweDef, r: &RadixDecomposition) {
    for (x, row) in polys(a, p).iter().zip(g.rows(p, r)) {
        for (d, c) in digits(x, r).iter().zip(row.glwe_ciphertexts(p)) {
            ref_mad(acc, d, &glwe_phase(c, s, p));
        }
    }
}
/// the external product is the digit-weighted sum of the rows, for arbitrary ciphertext contents
fn ext<S: W>(p: GlweDef, r: RadixDecomposition) {
    let n = p.dim.polynomial_degree.0;
    poison(4, n);
    let s = any_vec::<S>(n * p.dim.size.0);
    let (c, a) = (any_glwe::<S>(&p), any_glwe::<S>(&p));
    let g = any_ggsw::<S>(&p, &r);
    let mut want = glwe_phase(&c, &s, &p);
    ref_ext(&mut want, &a, &g, &s, &p, &r);
    let mut o = c.clone();
    glwe_ggsw_mad(&mut o, &a, &g, &p, &r);
    let ph = glwe_phase(&o, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == want[i], 1);
    }
    let o = external_product_ggsw_glwe(&g, &a, &p, &r);
    let ph = glwe_phase(&o, &s, &p);
    let p0 = glwe_phase(&c, &s, &p);
    for i in 0..n {
        sx::assert(ph[i] == want[i].wrapping_sub(&p0[i]), 2);
    }
    sx::reach(1);
}
/// with a noise-free GGSW encryption of m the product has phase m times the rounded phase
fn ext_msg<S: W>(p: GlweDef, r: RadixDecomposition) {
    let n = p.dim.polynomial_degree.0;
    let p0 = GlweDef { dim: p.dim, std: sunscreen_tfhe::rand::Stddev(0.0) };
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let a = any_glwe::<S>(&p);
    let m: Vec<S> = (0..n).map(|_| S::of(sx::bits(2))).collect();
    let mut g = GgswCiphertext::<S>::new(&p, &r);
    encrypt_ggsw_ciphertext(&mut g, &Polynomial::new(&m), &sk, &p0, &r, PlaintextBits(2));
    let o = external_product_ggsw_glwe(&g, &a, &p, &r);
    let ph = glwe_phase(&o, &s, &p);
    let mut want = vec![S::of(0); n];
    ref_mad(&mut want, &m, &rounded_phase(&a, &s, &p, &r));
    for i in 0..n {
        sx::assert(ph[i] == want[i], 1);
    }
    sx::reach(1);
}
/// the frequency-domain cmux and external product, for arbitrary ciphertext contents
fn cmux_fft<S: W>(p: GlweDef, r: RadixDecomposition, tol: u32) {
    let n = p.dim.polynomial_degree.0;
    let (d0, d1) = (any_glwe::<S>(&p), any_glwe::<S>(&p));
    let g = any_ggsw::<S>(&p, &r);
    let mut gf = GgswCiphertextFft::<Complex<f64>>::new(&p, &r);
    g.fft(&mut gf, &p, &r);
    poison(6, 4 * n);
    let mut c = GlweCiphertext::<S>::new(&p);
    fft_ops::cmux(&mut c, &d0, &d1, &gf, &p, &r);
    // componentwise: c = d0 + sum digits(d1-d0) * rows
    let mut want = polys(&d0, &p);
    let diff: Vec<Vec<S>> = polys(&d1, &p).iter().zip(&want).map(|(x, y)| x.iter().zip(y).map(|(x, y)| x.wrapping_sub(y)).collect()).collect();
    for (x, row) in diff.iter().zip(g.rows(&p, &r)) {
        for (d, c) in digits(x, &r).iter().zip(row.glwe_ciphertexts(&p)) {
            for (w, q) in want.iter_mut().zip(polys(c, &p)) {
                ref_mad(w, d, &q);
            }
        }
    }
    for (g, w) in polys(&c, &p).iter().zip(&want) {
        close_all(g, w, tol, 1);
    }
    sx::reach(1);
}
/// public-key GLEV encryptions (no noise): every component encrypts the scaled message
fn rlev<S: W>(n: usize, r: RadixDecomposition) {
    let p = glwe(n, 1);
    let p0 = GlweDef { dim: p.dim, std: sunscreen_tfhe::rand::Stddev(0.0) };
    poison(6, n * 2);
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let mut pk = RlwePublicKey::<S>::new(&p);
    rlwe_generate_public_key(&mut pk, &sk, &p0);
    let m = any_vec::<S>(n);
    let mut g = GlevCiphertext::<S>::new(&p, &r);
    for c in g.glwe_ciphertexts_mut(&p) {
        fill_glwe(c, &p);
    }
    encrypt_rlev_ciphertext(&mut g, &tpoly(&m), &pk, &p0, &r);
    let mut cnt = 0;
    for (j, c) in g.glwe_ciphertexts(&p).enumerate() {
        near(&glwe_phase(c, &s, &p), &scaled(&m, &r, j), 0, 1);
        cnt += 1;
    }
    sx::assert(cnt == r.count.0, 2);
    sx::reach(1);
}
/// messages that do not fit the plaintext are refused, others accepted
fn ggsw_range(p: GlweDef, r: RadixDecomposition) {
    let n = p.dim.polynomial_degree.0;
    let sk = any_glwe_key::<u64>(&p);
    let bits = sx::choose(1, r.radix_log.0 as u64) as u32;
    let m = any_vec::<u64>(n);
    let fits = m.iter().fold(true, |a, x| a & (*x < 1 << bits));
    let mut g = GgswCiphertext::<u64>::new(&p, &r);
    if sx::choose(0, 1) == 0 {
        sx::assume(fits);
        encrypt_ggsw_ciphertext(&mut g, &Polynomial::new(&m), &sk, &p, &r, PlaintextBits(bits));
        sx::reach(1);
    } else {
        sx::assume(!fits);
        sx::panic_ok(true);
        encrypt_ggsw_ciphertext(&mut g, &Polynomial::new(&m), &sk, &p, &r, PlaintextBits(bits));
        sx::assert(false, 1);
    }
}
fn glev_cmux_fft<S: W>(p: GlweDef, r: RadixDecomposition, gr: RadixDecomposition, tol: u32) {
    let n = p.dim.polynomial_degree.0;
    let any = || {
        let mut g = GlevCiphertext::<S>::new(&p, &r);
        for c in g.glwe_ciphertexts_mut(&p) {
            fill_glwe(c, &p);
        }
        g
    };
    let (d0, d1) = (any(), any());
    let g = any_ggsw::<S>(&p, &gr);
    let mut gf = GgswCiphertextFft::<Complex<f64>>::new(&p, &gr);
    g.fft(&mut gf, &p, &gr);
    poison(6, 4 * n);
    let mut c = GlevCiphertext::<S>::new(&p, &r);
    fft_ops::glev_cmux(&mut c, &d0, &d1, &gf, &p, &gr);
    for ((c, d0), d1) in c.glwe_ciphertexts(&p).zip(d0.glwe_ciphertexts(&p)).zip(d1.glwe_ciphertexts(&p)) {
        let mut want = polys(d0, &p);
        let diff: Vec<Vec<S>> = polys(d1, &p).iter().zip(&want).map(|(x, y)| x.iter().zip(y).map(|(x, y)| x.wrapping_sub(y)).collect()).collect();
        for (x, row) in diff.iter().zip(g.rows(&p, &gr)) {
            for (d, c) in digits(x, &gr).iter().zip(row.glwe_ciphertexts(&p)) {
                for (w, q) in want.iter_mut().zip(polys(c, &p)) {
                    ref_mad(w, d, &q);
                }
            }
        }
        for (g, w) in polys(c, &p).iter().zip(&want) {
            close_all(g, w, tol, 1);
        }
    }
    sx::reach(1);
}
harness! {
fn h_rlev64() { let n = 1 << sx::choose(0, 2); rlev::<u64>(n, rad()) }
fn h_rlev32() { let n = 1 << sx::choose(0, 2); rlev::<u32>(n, rad()) }
fn h_ggsw_range() { ggsw_range(glwe(2, 1), radix(1, 4)) }
fn h_cmux_fft_glev() { glev_cmux_fft::<u64>(glwe(16, 1), radix(2, 8), radix(1, 4), 46) }
fn h_glev_enc64() { let p = dims(); glev_enc::<u64>(p, rad(), true) }
fn h_glev_enc32() { let p = dims(); glev_enc::<u32>(p, rad(), true) }
fn h_ggsw_enc64() { let p = dims(); ggsw_enc::<u64>(p, rad()) }
fn h_ggsw_enc32() { let p = dims(); ggsw_enc::<u32>(p, rad()) }
fn h_ext64() { let p = dims(); ext::<u64>(p, rad()) }
fn h_ext32() { let p = dims(); ext::<u32>(p, rad()) }
fn h_ext_msg64() { { let p = dims(); ext_msg::<u64>(p, radix(sx::choose(1, 3) as usize, 4)) } }
fn h_ext_msg32() { { let p = dims(); ext_msg::<u32>(p, radix(sx::choose(1, 3) as usize, 4)) } }
fn h_cmux_fft64() { cmux_fft::<u64>(glwe(16, 1), radix(2, 4), 46) }
fn h_cmux_fft64_k2() { cmux_fft::<u64>(glwe(16, 2), radix(1, 4), 46) }
fn h_cmux_fft32() { cmux_fft::<u32>(glwe(16, 1), radix(2, 4), 14) }
}
