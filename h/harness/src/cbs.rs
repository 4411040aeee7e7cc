//! Scheme switching, automorphisms, traces, circuit bootstrapping
use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext::glwe_mod_switch_and_expand_pow_2;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::*;

type C = Complex<f64>;
fn no_noise(p: &GlweDef) -> GlweDef { GlweDef { dim: p.dim, std: Stddev(0.0) } }
fn any_glev<S: W>(p: &GlweDef, r: &RadixDecomposition) -> GlevCiphertext<S> {
    let mut g = GlevCiphertext::<S>::new(p, r);
    for c in g.glwe_ciphertexts_mut(p) {
        fill_glwe(c, p);
    }
    g
}
fn any_ssk<S: W>(p: &GlweDef, r: &RadixDecomposition) -> SchemeSwitchKey<S> {
    let mut k = SchemeSwitchKey::<S>::new(p, r);
    for g in k.glev_ciphertexts_mut(p, r) {
        for c in g.glwe_ciphertexts_mut(p) {
            fill_glwe(c, p);
        }
    }
    k
}
/// index of the unordered pair in row order (0,0), (0,1), .., (1,1), ..
fn pair(i: usize, j: usize, k: usize) -> usize {
    let (i, j) = (i.min(j), i.max(j));
    (0..i).map(|x| k - x).sum::<usize>() + j - i
}
/// rows of the switched ciphertext, for arbitrary key contents
fn ss<S: W>() {
    let n = 1 << sx::choose(0, 2);
    let k = sx::choose(1, 3) as usize;
    let p = glwe(n, k);
    let (rg, rs) = (radix(sx::choose(1, 2) as usize, 5), radix(2, 3));
    poison(4, 4 * n);
    let s = any_vec::<S>(n * k);
    let (x, key) = (any_glev::<S>(&p, &rg), any_ssk::<S>(&p, &rs));
    let mut o = any_ggsw::<S>(&p, &rg);
    scheme_switch(&mut o, &x, &key, &p, &rg, &rs);
    let glevs: Vec<_> = key.glev_ciphertexts(&p, &rs).collect();
    sx::assert(glevs.len() == k * (k + 1) / 2, 3);
    let mut rows = 0;
    for (j, row) in o.rows(&p, &rg).enumerate() {
        for (xi, y) in x.glwe_ciphertexts(&p).zip(row.glwe_ciphertexts(&p)) {
            if j == k {
                for (a, b) in polys(y, &p).iter().zip(&polys(xi, &p)) {
                    for (a, b) in a.iter().zip(b) {
                        sx::assert(*a == *b, 1);
                    }
                }
                continue;
            }
            let mut want = vec![S::of(0); n];
            let nb: Vec<S> = inner(xi.b(&p).coeffs()).iter().map(|v| v.wrapping_neg()).collect();
            ref_mad(&mut want, &nb, &s[j * n..(j + 1) * n]);
            for (r, a) in xi.a(&p).enumerate() {
                for (d, c) in digits(&inner(a.coeffs()), &rs).iter().zip(glevs[pair(j, r, k)].glwe_ciphertexts(&p)) {
                    ref_mad(&mut want, d, &glwe_phase(c, &s, &p));
                }
            }
            let got = glwe_phase(y, &s, &p);
            for i in 0..n {
                sx::assert(got[i] == want[i], 2);
            }
        }
        rows += 1;
    }
    sx::assert(rows == k + 1, 4);
    sx::reach(1);
}
/// the frequency-domain version agrees, whatever the output held before
fn ss_fft<S: W>(k: usize, count: usize, tol: u32) {
    let n = 16;
    let p = glwe(n, k);
    let (rg, rs) = (radix(count, 5), radix(1, 3));
    poison(8, 4 * n);
    let (x, key) = (any_glev::<S>(&p, &rg), any_ssk::<S>(&p, &rs));
    let mut kf = SchemeSwitchKeyFft::<C>::new(&p, &rs);
    key.fft(&mut kf, &p, &rs);
    let mut of = GgswCiphertextFft::<C>::new(&p, &rg);
    any_ggsw::<S>(&p, &rg).fft(&mut of, &p, &rg);
    fft_ops::scheme_switch_fft(&mut of, &x, &kf, &p, &rg, &rs);
    let mut o = GgswCiphertext::<S>::new(&p, &rg);
    of.ifft(&mut o, &p, &rg);
    let mut w = GgswCiphertext::<S>::new(&p, &rg);
    scheme_switch(&mut w, &x, &key, &p, &rg, &rs);
    for (a, b) in o.rows(&p, &rg).zip(w.rows(&p, &rg)) {
        for (a, b) in a.glwe_ciphertexts(&p).zip(b.glwe_ciphertexts(&p)) {
            for (a, b) in polys(a, &p).iter().zip(&polys(b, &p)) {
                close_all(a, b, tol, 1);
            }
        }
    }
    sx::reach(1);
}
/// scheme switching keys encrypt the products of the key polynomials
fn ssk(k: usize, tol: u32) {
    type S = u64;
    let n = 16;
    let p = glwe(n, k);
    let r = radix(2, 4);
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(8, 4 * n);
    let mut sk = GlweSecretKey::<S>::generate_binary(&p);
    for (x, c) in sk.s_mut(&p).enumerate() {
        let (m, v) = (sx::choose(0, 7), [0x2b9du64, 0x8e41][x & 1]);
        for (i, w) in c.coeffs_mut().iter_mut().enumerate() {
            *w = S::of(if i % 7 == 1 { m >> i / 7 & 1 } else { v >> i & 1 });
        }
    }
    let s = glwe_key(&sk, &p);
    let mut key = any_ssk::<S>(&p, &r);
    generate_scheme_switch_key(&mut key, &sk, &p, &r);
    let glevs: Vec<_> = key.glev_ciphertexts(&p, &r).collect();
    for i in 0..k {
        for j in i..k {
            let mut want = vec![S::of(0); n];
            ref_mad(&mut want, &s[i * n..(i + 1) * n], &s[j * n..(j + 1) * n]);
            for (l, c) in glevs[pair(i, j, k)].glwe_ciphertexts(&p).enumerate() {
                close_all(&glwe_phase(c, &s, &p), &scaled(&want, &r, l), tol, 1);
            }
        }
    }
    sx::reach(1);
}
/// automorphism keys switch from the key with X replaced by X^k
fn ak_gen<S: W>() {
    let n = 2 << sx::choose(0, 2);
    let p = glwe(n, sx::choose(1, 2) as usize);
    let r = radix(sx::choose(1, 2) as usize, 4);
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(8, 2 * n);
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let mut ak = AutomorphismKey::<S>::new(&p, &r);
    std_reset();
    generate_automorphism_key(&mut ak, &sk, &p, &r);
    let mut cnt = 0;
    for (i, ksk) in ak.keyswitch_keys(&p, &r).enumerate() {
        let k = (n >> i) + 1;
        for (x, row) in ksk.rows(&p, &r).enumerate() {
            let from = ref_pow(&s[x * n..(x + 1) * n], k);
            for (j, c) in row.glwe_ciphertexts(&p).enumerate() {
                near(&glwe_phase(c, &s, &p), &scaled(&from, &r, j), b, 1);
            }
        }
        cnt += 1;
    }
    sx::assert(1 << cnt == n, 2);
    sx::assert(stds() == cnt * p.dim.size.0 * r.count.0 * n && std_all(STD), 3);
    sx::reach(1);
}
/// the trace with an arbitrary key is the chain of x + switch(x(X^k))
fn trace_steps<S: W>(k: usize, tol: u32) {
    let n = 16;
    let p = glwe(n, k);
    let r = radix(1, 3);
    let mut ak = AutomorphismKey::<S>::new(&p, &r);
    for k in ak.keyswitch_keys_mut(&p, &r) {
        for row in k.rows_mut(&p, &r) {
            for c in row.glwe_ciphertexts_mut(&p) {
                fill_glwe(c, &p);
            }
        }
    }
    let mut af = AutomorphismKeyFft::<C>::new(&p, &r);
    ak.fft(&mut af, &p, &r);
    poison(8, 4 * n);
    let x = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    trace(&mut o, &x, &af, &p, &r);
    let mut acc = polys(&x, &p);
    for (i, key) in af.keyswitch_keys(&p, &r).enumerate() {
        let g = (n >> i) + 1;
        let mut c = GlweCiphertext::<S>::new(&p);
        let q: Vec<Vec<S>> = acc.iter().map(|v| ref_pow(v, g)).collect();
        set(&mut c, &q, &p);
        let mut y = GlweCiphertext::<S>::new(&p);
        fft_ops::keyswitch_glwe_to_glwe(&mut y, &c, key, &p, &r);
        for (a, b) in acc.iter_mut().zip(&polys(&y, &p)) {
            for (a, b) in a.iter_mut().zip(b) {
                *a = a.wrapping_add(b);
            }
        }
    }
    for (g, w) in polys(&o, &p).iter().zip(&acc) {
        close_all(g, w, tol, 1);
    }
    sx::reach(1);
}
fn set<S: W>(c: &mut GlweCiphertextRef<S>, q: &[Vec<S>], p: &GlweDef) {
    let k = p.dim.size.0;
    for (a, v) in c.a_mut(p).zip(q) {
        for (a, v) in a.coeffs_mut().iter_mut().zip(v) {
            *a = t(*v);
        }
    }
    for (a, v) in c.b_mut(p).coeffs_mut().iter_mut().zip(&q[k]) {
        *a = t(*v);
    }
}
/// with a key of zeros (noise-free under the zero key) the body keeps N times its constant coefficient
fn trace_end<S: W>(tol: u32) {
    let n = 16;
    let p = glwe(n, 1);
    let r = radix(2, 4);
    let af = AutomorphismKeyFft::<C>::new(&p, &r);
    poison(8, 4 * n);
    let x = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    trace(&mut o, &x, &af, &p, &r);
    let b = inner(x.b(&p).coeffs());
    let mut want = vec![S::of(0); n];
    want[0] = b[0].wrapping_mul(&S::of(n as u64));
    close_all(&inner(o.b(&p).coeffs()), &want, tol, 1);
    sx::reach(1);
}
/// every coefficient is rounded to the nearest multiple of the dropped power of two, then shifted down
fn mod_switch<S: W>() {
    let p = glwe(1 << sx::choose(0, 3), sx::choose(1, 2) as usize);
    let sh = sx::choose(0, S::BITS as u64 - 1) as u32;
    let x = any_glwe::<S>(&p);
    let mut y = any_glwe::<S>(&p);
    glwe_mod_switch_and_expand_pow_2(&mut y, &x, &p, sh);
    for (y, x) in polys(&y, &p).iter().zip(&polys(&x, &p)) {
        for (y, x) in y.iter().zip(x) {
            // nearest quotient by 2^sh, halves upwards
            let want = if sh == 0 { *x } else { (*x >> sh as usize).wrapping_add(&(*x >> (sh - 1) as usize & S::of(1))) };
            sx::assert(*y == want, 1);
        }
    }
    sx::reach(1);
}
/// noise-free bootstrapping key for every LWE key, under the zero key
fn bsk0<S: W>(pl: &LweDef, p: &GlweDef, r: &RadixDecomposition) -> (Vec<S>, BootstrapKeyFft<C>) {
    let g = glwe(1, pl.dim.0);
    let mut k = GlweSecretKey::<S>::generate_binary(&g);
    let mut bits = vec![];
    for x in k.s_mut(&g) {
        x.coeffs_mut()[0] = S::of(sx::choose(0, 1));
        bits.push(x.coeffs()[0]);
    }
    let k0 = zero_key::<S>(p);
    let mut b = BootstrapKey::<S>::new(pl, p, r);
    generate_bootstrap_key(&mut b, k.to_lwe_secret_key(), &k0, pl, &no_noise(p), r);
    let mut f = BootstrapKeyFft::<C>::new(pl, p, r);
    b.fft(&mut f, pl, p, r);
    (bits, f)
}
fn zero_key<S: W>(p: &GlweDef) -> GlweSecretKey<S> {
    let mut k = GlweSecretKey::<S>::generate_binary(p);
    for x in k.s_mut(p) {
        for c in x.coeffs_mut() {
            *c = S::of(0);
        }
    }
    k
}
/// an input whose phase is an encryption of one of both bits with any error below a quarter
/// of the modulus, less the switching error
fn input<S: W>(bits: &[S], pl: &LweDef, n: usize, log_v: u32, step: u64, mask: u64) -> (LweCiphertext<S>, u64) {
    let unit = S::BITS - n.ilog2() - 1 + log_v;
    let halves = (4 * n as u64) >> log_v;
    let mut x = LweCiphertext::<S>::new(pl);
    let c = sx::choose(0, halves - 1) / step * step;
    let mut d = c as i64;
    let (a, b) = x.a_b_mut(pl);
    let mut ph = c << (unit - 1) | sx::bits(unit - 1);
    *b = t(S::of(ph));
    for (w, s) in a.iter_mut().zip(bits) {
        let v = mask << (unit - 1) | sx::bits(unit - 1);
        *w = t(S::of(v));
        if *s == S::of(1) {
            ph = ph.wrapping_sub(v);
            d -= mask as i64;
        }
    }
    let halves = halves as i64;
    let m = ((d + halves / 4).rem_euclid(halves) / (halves / 2)) as u64;
    let lim = (1u64 << (S::BITS - 2)) - ((pl.dim.0 as u64 + 1) << (unit - 1));
    let e = S::of(ph.wrapping_sub(m << (S::BITS - 1)).wrapping_add(lim));
    sx::assume(u(e) < 2 * lim);
    (x, m)
}
/// circuit bootstrapping through private functional key switching
#[allow(deprecated)]
fn cbs_pfks<S: W>(n1: usize, k1: usize, rc: RadixDecomposition, step: u64, mask: u64, tol: u32) {
    let (n, pl) = (16, lwe(1));
    let (p2, p1) = (glwe(n, 1), glwe(n1, k1));
    let (rb, rp) = (radix(2, 8), radix(2, 8));
    let (bits, bsk) = bsk0::<S>(&pl, &p2, &rb);
    let k2 = zero_key::<S>(&p2);
    let sk = GlweSecretKey::<S>::generate_binary(&p1);
    let s = glwe_key(&sk, &p1);
    let mut keys = CircuitBootstrappingKeyswitchKeys::<S>::new(&p2.as_lwe_def(), &p1, &rp);
    generate_circuit_bootstrapping_pfks_keys(&mut keys, k2.to_lwe_secret_key(), &sk, &p2.as_lwe_def(), &no_noise(&p1), &rp);
    poison(8, 4 * n);
    let log_v = rc.count.0.next_power_of_two().ilog2();
    let (x, m) = input::<S>(&bits, &pl, n, log_v, step, mask);
    let mut o = any_ggsw::<S>(&p1, &rc);
    circuit_bootstrap_via_pfks(&mut o, &x, &bsk, &keys, &pl, &p1, &p2, &rb, &rc, &rp);
    for (j, row) in o.rows(&p1, &rc).enumerate() {
        let mut want = vec![S::of(0); n1];
        if j < k1 {
            for i in 0..n1 {
                want[i] = S::of(m).wrapping_mul(&s[j * n1 + i]).wrapping_neg();
            }
        } else {
            want[0] = S::of(m);
        }
        for (i, c) in row.glwe_ciphertexts(&p1).enumerate() {
            close_all(&glwe_phase(c, &s, &p1), &scaled(&want, &rc, i), tol, 1);
        }
    }
    sx::reach(1);
}
/// circuit bootstrapping through trace and scheme switch, with keys of zeros (noise-free under
/// the zero key): the bodies are the scaled message, and so are the mask entries that carry minus
/// the message times the key
fn cbs_trace<S: W>(k: usize, rc: RadixDecomposition, step: u64, mask: u64, tol: u32) {
    let (n, pl) = (16, lwe(1));
    let p = glwe(n, k);
    let (rb, rt, rs) = (radix(2, 8), radix(1, 4), radix(1, 4));
    let (bits, bsk) = bsk0::<S>(&pl, &p, &rb);
    let ak = AutomorphismKeyFft::<C>::new(&p, &rt);
    let ssk = SchemeSwitchKeyFft::<C>::new(&p, &rs);
    poison(8, 4 * n);
    let log_v = rc.count.0.next_power_of_two().ilog2();
    let (x, m) = input::<S>(&bits, &pl, n, log_v, step, mask);
    let mut of = GgswCiphertextFft::<C>::new(&p, &rc);
    circuit_bootstrap_via_trace_and_scheme_switch(&mut of, &x, &bsk, &ak, &ssk, &pl, &p, &rb, &rt, &rs, &rc);
    let mut o = GgswCiphertext::<S>::new(&p, &rc);
    of.ifft(&mut o, &p, &rc);
    let mut one = vec![S::of(0); n];
    one[0] = S::of(m);
    let zero = vec![S::of(0); n];
    for (j, row) in o.rows(&p, &rc).enumerate() {
        for (i, c) in row.glwe_ciphertexts(&p).enumerate() {
            let want = scaled(&one, &rc, i);
            for (x, v) in polys(c, &p).iter().enumerate() {
                if x == j {
                    close_all(v, &want, tol, 1);
                } else if j < k {
                    close_all(v, &zero, tol, 2);
                }
            }
        }
    }
    sx::reach(1);
}
harness! {
fn h_ss64() { ss::<u64>() }
fn h_ss32() { ss::<u32>() }
fn h_ss_fft64() { ss_fft::<u64>(1, 2, 46) }
fn h_ss_fft64_k2() { ss_fft::<u64>(2, 1, 46) }
fn h_ss_fft32() { ss_fft::<u32>(1, 1, 14) }
fn h_ssk_fft64() { ssk(1, 13) }
fn h_ssk_fft64_k2() { ssk(2, 13) }
fn h_ak64() { ak_gen::<u64>() }
fn h_ak32() { ak_gen::<u32>() }
fn h_trace_fft_steps64() { trace_steps::<u64>(1, 46) }
fn h_trace_fft_steps64_k2() { trace_steps::<u64>(2, 46) }
fn h_trace_fft_end64() { trace_end::<u64>(20) }
fn h_trace_fft_end32() { trace_end::<u32>(8) }
fn h_modsw64() { mod_switch::<u64>() }
fn h_modsw32() { mod_switch::<u32>() }
fn h_cbs_fft_pfks64() { cbs_pfks::<u64>(2, 1, radix(2, 4), 1, 5, 52) }
fn h_cbs_fft_pfks64_k2() { cbs_pfks::<u64>(1, 2, radix(3, 3), 1, 5, 52) }
fn h_cbs_fft_trace64() { cbs_trace::<u64>(1, radix(2, 4), 1, 11, 52) }
fn h_cbs_fft_trace64_k2() { cbs_trace::<u64>(2, radix(3, 3), 1, 5, 52) }
}
