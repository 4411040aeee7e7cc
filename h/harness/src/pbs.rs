//! Lookup tables, rotations, blind rotation, programmable bootstrapping
use crate::harness;
use crate::util::*;
use num::Complex;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::*;

/// coefficient i of X^(-r) * P
fn at<S: W>(p: &[S], r: i64, i: usize) -> S {
    let n = p.len() as i64;
    let x = (r + i as i64).rem_euclid(2 * n);
    if x < n { p[x as usize] } else { p[(x - n) as usize].wrapping_neg() }
}
fn trivial_body<S: W>(c: &GlweCiphertextRef<S>, p: &GlweDef, code: u32) -> Vec<S> {
    for a in c.a(p) {
        for x in a.coeffs() {
            sx::assert(x.inner() == S::of(0), code);
        }
    }
    inner(c.b(p).coeffs())
}
fn lut<S: W>(n: usize, v: usize) {
    let p = glwe(n, sx::choose(1, 2) as usize);
    poison(3, n);
    let cv = v.next_power_of_two();
    let bits = sx::choose(1, 3) as u32;
    let np = 1usize << bits;
    sx::assume(n >= np && (v == 1 || n / np >= 2 * cv));
    let stride = n / np;
    let tab: Vec<Vec<u64>> = (0..v).map(|_| (0..np).map(|_| sx::bits(bits)).collect()).collect();
    let l = if v == 1 {
        UnivariateLookupTable::<S>::trivial_from_fn(|x| tab[0][x as usize], &p, PlaintextBits(bits))
    } else {
        let fs: Vec<_> = tab.iter().map(|t| { let t = t.clone(); move |x: u64| t[x as usize] }).collect();
        UnivariateLookupTable::<S>::trivivial_multifunctional(&fs, &p, PlaintextBits(bits))
    };
    let b = trivial_body(l.glwe(), &p, 1);
    let h = (stride / 2) as i64;
    for m in 0..np {
        for d in -h..(stride as i64 - h) {
            if d.rem_euclid(cv as i64) != 0 {
                continue;
            }
            for i in 0..v {
                sx::assert(at(&b, (m * stride) as i64 + d, i) == S::of(tab[i][m]) << (S::BITS as usize - bits as usize), 2);
            }
        }
    }
    sx::reach(1);
}
/// reusing a table object, constant tables
fn lut_fill<S: W>() {
    let n = 1usize << sx::choose(1, 3);
    let p = glwe(n, 2);
    poison(3, n);
    let mut l = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, &p, PlaintextBits(1));
    for a in l.glwe_mut().a_mut(&p) {
        for x in a.coeffs_mut() {
            *x = t(S::any());
        }
    }
    for x in l.glwe_mut().b_mut(&p).coeffs_mut() {
        *x = t(S::any());
    }
    let f = [sx::bits(1), sx::bits(1)];
    let mut k = l.clone();
    k.fill_trivial_from_fns(&[|x: u64| f[x as usize]], &p, PlaintextBits(1));
    let b = trivial_body(k.glwe(), &p, 1);
    let s = n / 2;
    for m in 0..2 {
        for d in 0..s {
            let r = (m * s + d) as i64 - (s / 2) as i64;
            sx::assert(at(&b, r, 0) == S::of(f[m]) << (S::BITS as usize - 1), 2);
        }
    }
    let bits = sx::choose(1, S::BITS as u64 - 1) as u32;
    let c = S::of(sx::bits(bits));
    l.fill_with_constant(c, &p, PlaintextBits(bits));
    for x in trivial_body(l.glwe(), &p, 3) {
        sx::assert(x == c << (S::BITS - bits) as usize, 4);
    }
    sx::reach(1);
}
fn lut_biv<S: W>(n: usize) {
    let p = glwe(n, 1);
    poison(3, n);
    let bits = sx::choose(1, 2) as u32;
    let carry = sx::choose(bits as u64, 2) as u32;
    let np = 1usize << (bits + carry);
    let stride = n / np;
    let m = 1usize << bits;
    let tab: Vec<u64> = (0..m * m).map(|_| sx::bits(bits)).collect();
    let l = BivariateLookupTable::<S>::trivial_from_fn(|a, b| tab[a as usize * m + b as usize], &p, PlaintextBits(bits), CarryBits(carry));
    let b = trivial_body(l.glwe(), &p, 1);
    let bu = trivial_body(l.as_univariate().glwe(), &p, 1);
    let h = (stride / 2) as i64;
    for x in 0..m {
        for y in 0..m {
            let want = S::of(tab[x * m + y]) << (S::BITS - bits - carry) as usize;
            for d in -h..(stride as i64 - h) {
                let r = ((x * m + y) * stride) as i64 + d;
                sx::assert(at(&b, r, 0) == want, 2);
                sx::assert(at(&bu, r, 0) == want, 2);
            }
        }
    }
    sx::reach(1);
}
/// table values that do not fit the plaintext are refused
fn lut_range() {
    let p = glwe(8, 1);
    let tab: Vec<u64> = (0..4).map(|_| sx::u64()).collect();
    let fits = tab.iter().fold(true, |a, x| a & (*x < 4));
    if sx::choose(0, 1) == 0 {
        sx::assume(fits);
        UnivariateLookupTable::<u64>::trivial_from_fn(|x| tab[x as usize], &p, PlaintextBits(2));
        sx::reach(1);
    } else {
        sx::assume(!fits);
        sx::panic_ok(true);
        UnivariateLookupTable::<u64>::trivial_from_fn(|x| tab[x as usize], &p, PlaintextBits(2));
        sx::assert(false, 1);
    }
}
fn rotate<S: W>() {
    let n = 1usize << sx::choose(0, 3);
    let p = glwe(n, sx::choose(1, 2) as usize);
    let s = any_vec::<S>(n * p.dim.size.0);
    let c = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    let k = sx::choose(0, 4 * n as u64) as usize;
    let ph = glwe_phase(&c, &s, &p);
    let which = sx::choose(0, 3);
    match which {
        0 => rotate_glwe_positive_monomial_negacyclic(&mut o, &c, k, &p),
        1 => rotate_glwe_negative_monomial_negacyclic(&mut o, &c, k, &p),
        2 => rotate_glwe_monomial_negacyclic(&mut o, &c, k as isize, &p),
        _ => rotate_glwe_monomial_negacyclic(&mut o, &c, -(k as isize), &p),
    }
    let want = ref_monomial(&ph, if which % 2 == 0 { k as i128 } else { -(k as i128) });
    let got = glwe_phase(&o, &s, &p);
    for i in 0..n {
        sx::assert(got[i] == want[i], 1);
    }
    sx::reach(1);
}
fn no_noise(p: &GlweDef) -> GlweDef { GlweDef { dim: p.dim, std: Stddev(0.0) } }
fn zero_key<S: W>(p: &GlweDef) -> GlweSecretKey<S> {
    let mut k = GlweSecretKey::<S>::generate_binary(p);
    for x in k.s_mut(p) {
        for c in x.coeffs_mut() {
            *c = S::of(0);
        }
    }
    k
}
/// an LWE key with every choice of bits
fn bit_key<S: W>(p: &LweDef) -> (LweSecretKey<S>, Vec<S>) {
    let g = glwe(1, p.dim.0);
    let mut k = GlweSecretKey::<S>::generate_binary(&g);
    let mut v = vec![];
    for x in k.s_mut(&g) {
        x.coeffs_mut()[0] = S::of(sx::choose(0, 1));
        v.push(x.coeffs()[0]);
    }
    (k.to_lwe_secret_key().to_owned(), v)
}
/// every entry of a bootstrapping key is a GGSW encryption of its key bit with fresh randomness
fn bsk<S: W>() {
    let n = 1usize << sx::choose(0, 1);
    let p = glwe(n, sx::choose(1, 2) as usize);
    let pl = lwe(sx::choose(1, 3) as usize);
    let r = radix(sx::choose(1, 2) as usize, 4);
    par(sx::choose(0, 1) == 1, 4);
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    poison(4, 2 * n);
    let kl = LweSecretKey::<S>::generate_binary(&pl);
    let sk = any_glwe_key::<S>(&p);
    let (bits, s) = (kl.s().to_vec(), glwe_key(&sk, &p));
    let mut k = BootstrapKey::<S>::new(&pl, &p, &r);
    rng_reset();
    generate_bootstrap_key(&mut k, &kl, &sk, &pl, &p, &r);
    let mut rows = 0;
    let mut ms = vec![];
    for (i, g) in k.rows(&p, &r).enumerate() {
        let mut m = vec![S::of(0); n];
        m[0] = bits[i];
        for (x, row) in g.rows(&p, &r).enumerate() {
            let mut want = vec![S::of(0); n];
            if x < p.dim.size.0 {
                ref_mad(&mut want, &m, &s[x * n..(x + 1) * n]);
                want = want.iter().map(|x| x.wrapping_neg()).collect();
            } else {
                want = m.clone();
            }
            for (j, c) in row.glwe_ciphertexts(&p).enumerate() {
                near(&glwe_phase(c, &s, &p), &scaled(&want, &r, j), b, 1);
                for a in c.a(&p) {
                    ms.extend(inner(a.coeffs()));
                }
            }
        }
        rows += 1;
    }
    sx::assert(rows == pl.dim.0, 2);
    sx::assert(stds() == rows * (p.dim.size.0 + 1) * r.count.0 * n && std_all(STD), 3);
    if ms.len() <= 12 {
        fresh_words(&ms, 4);
    }
    sx::reach(1);
}
/// a word somewhere in the c-th half unit, for a listed c
fn half_units<S: W>(cs: &[u64], unit: u32) -> (u64, u64) {
    let c = cs[sx::choose(0, cs.len() as u64 - 1) as usize];
    (c << (unit - 1) | sx::bits(unit - 1), c)
}
/// bootstrapping with an arbitrary key is the chain of multiplexers over rotations
fn pbs_steps<S: W>(n: usize, dl: usize, k: usize, r: RadixDecomposition, rots: &[u64], log_v: u32, tol: u32) {
    let p = glwe(n, k);
    let pl = lwe(dl);
    let lg = n.ilog2() + 1;
    let sh = S::BITS - lg;
    let mut key = BootstrapKeyFft::<Complex<f64>>::new(&pl, &p, &r);
    for g in key.rows_mut(&p, &r) {
        any_ggsw::<S>(&p, &r).fft(g, &p, &r);
    }
    poison(8, 4 * n);
    let unit = sh + log_v;
    let mut x = LweCiphertext::<S>::new(&pl);
    let mut rot = vec![];
    {
        let (a, b) = x.a_b_mut(&pl);
        for w in a.iter_mut().chain(std::iter::once(b)) {
            let (v, c) = half_units::<S>(rots, unit);
            rot.push(((c + 1 >> 1) << log_v) as usize);
            *w = t(S::of(v));
        }
    }
    let mut l = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, &p, PlaintextBits(1));
    fill_glwe(l.glwe_mut(), &p);
    let mut o = any_glwe::<S>(&p);
    generalized_programmable_bootstrap(&mut o, &x, &l, &key, 0, log_v, &pl, &p, &r);
    let mut acc = GlweCiphertext::<S>::new(&p);
    let mut tmp = acc.clone();
    rotate_glwe_monomial_negacyclic(&mut acc, l.glwe(), -(rot[dl] as isize), &p);
    for (i, g) in key.rows(&p, &r).enumerate() {
        rotate_glwe_monomial_negacyclic(&mut tmp, &acc, rot[i] as isize, &p);
        let mut nx = GlweCiphertext::<S>::new(&p);
        fft_ops::cmux(&mut nx, &acc, &tmp, g, &p, &r);
        acc = nx;
    }
    for (g, w) in polys(&o, &p).iter().zip(&polys(&acc, &p)) {
        close_all(g, w, tol, 1);
    }
    sx::reach(1);
}
/// with a noise-free key, every message within the noise limit is mapped through the table
fn pbs_end<S: W>(n: usize, dl: usize, bits: u32, rots: &[u64], step: u64, tol: u32) {
    let p = glwe(n, 1);
    let pl = lwe(dl);
    let r = radix(2, 8);
    let lg = n.ilog2() + 1;
    let sh = S::BITS - lg;
    let (kl, s) = bit_key::<S>(&pl);
    let k0 = zero_key::<S>(&p);
    let mut k = BootstrapKey::<S>::new(&pl, &p, &r);
    generate_bootstrap_key(&mut k, &kl, &k0, &pl, &no_noise(&p), &r);
    let mut kf = BootstrapKeyFft::<Complex<f64>>::new(&pl, &p, &r);
    k.fft(&mut kf, &pl, &p, &r);
    poison(8, 4 * n);
    let np = 1usize << bits;
    // every half unit of the body; the phase has to lie in the block of some message
    let mut x = LweCiphertext::<S>::new(&pl);
    let mut ph;
    let cb = sx::choose(0, 4 * n as u64 - 1) / step * step;
    let mut c = cb as i64;
    {
        let (a, b) = x.a_b_mut(&pl);
        ph = cb << (sh - 1) | sx::bits(sh - 1);
        *b = t(S::of(ph));
        for (w, s) in a.iter_mut().zip(&s) {
            let (v, ca) = half_units::<S>(rots, sh);
            *w = t(S::of(v));
            if *s == S::of(1) {
                ph = ph.wrapping_sub(v);
                c -= ca as i64;
            }
        }
    }
    // a table block is N/p units wide; each switched word is off by up to half a unit
    let half = ((n / np) as u64) << (sh - 1);
    let slack = (dl as u64 + 1) << (sh - 1);
    let blk = 2 * (n / np) as i64;
    let m = ((c + blk / 2).rem_euclid(4 * n as i64) / blk) as u64;
    sx::assume(m < np as u64);
    let tab: Vec<u64> = (0..np).map(|i| if np == 2 || i == m as usize { sx::choose(0, np as u64 - 1) } else { i as u64 * 3 + 1 & np as u64 - 1 }).collect();
    let l = UnivariateLookupTable::<S>::trivial_from_fn(|x| tab[x as usize], &p, PlaintextBits(bits));
    let d = S::of(ph.wrapping_sub(m << (S::BITS - 1 - bits)).wrapping_add(half - slack));
    sx::assume(u(d) < 2 * (half - slack));
    let mut o = any_lwe::<S>(&p.as_lwe_def());
    programmable_bootstrap_univariate(&mut o, &x, &l, &kf, &pl, &p, &r);
    // the zero key leaves the body
    sx::assert(close(*o.a_b(&p.as_lwe_def()).1, t(S::of(tab[m as usize]) << (S::BITS - bits) as usize), tol), 1);
    sx::reach(1);
}
fn pbs_biv<S: W>(n: usize, rots: &[u64], tol: u32) {
    let p = glwe(n, 1);
    let pl = lwe(1);
    let r = radix(2, 8);
    let bits = 1u32;
    let lg = n.ilog2() + 1;
    let sh = S::BITS - lg;
    let (kl, s) = bit_key::<S>(&pl);
    let k0 = zero_key::<S>(&p);
    let mut k = BootstrapKey::<S>::new(&pl, &p, &r);
    generate_bootstrap_key(&mut k, &kl, &k0, &pl, &no_noise(&p), &r);
    let mut kf = BootstrapKeyFft::<Complex<f64>>::new(&pl, &p, &r);
    k.fft(&mut kf, &pl, &p, &r);
    poison(8, 4 * n);
    let (ml, mr) = (sx::choose(0, 1), sx::choose(0, 1));
    let hit = sx::choose(0, 1);
    let tab: Vec<u64> = (0..4).map(|i| if i == 2 * ml + mr { hit } else { i & 1 ^ i >> 1 }).collect();
    let l = BivariateLookupTable::<S>::trivial_from_fn(|x, y| tab[(2 * x + y) as usize], &p, PlaintextBits(bits), CarryBits(1));
    // errors in half units; twice the left plus the right stays inside the table block of four units
    let side = sx::choose(0, 1);
    let mk = |m: u64, rot: u64, e: i64, low: bool| {
        let mut x = LweCiphertext::<S>::new(&pl);
        let (a, b) = x.a_b_mut(&pl);
        a[0] = t(S::of(rot << (sh - 1)));
        let c = ((m << (S::BITS - 3)) as i64 + (e << (sh - 1)) + ((u(s[0]) as i64 * rot as i64) << (sh - 1))) as u64;
        *b = t(S::of(if low { c | sx::bits(sh - 3) } else { c }));
        x
    };
    let (x, y) = (mk(ml, rots[0], sx::choose(0, 1) as i64 - 1, side == 0), mk(mr, rots[1], sx::choose(0, 2) as i64 - 1, side == 1));
    let mut o = any_lwe::<S>(&p.as_lwe_def());
    programmable_bootstrap_bivariate(&mut o, &x, &y, &l, &kf, &pl, &p, PlaintextBits(bits), &r);
    sx::assert(close(*o.a_b(&p.as_lwe_def()).1, t(S::of(tab[(2 * ml + mr) as usize]) << (S::BITS - 2) as usize), tol), 1);
    sx::reach(1);
}
/// blind rotation with an arbitrary shift is the chain of multiplexers
fn blind_steps<S: W>(n: usize, r: RadixDecomposition, tol: u32) {
    let p = glwe(n, 1);
    let mut key = BlindRotationShiftFft::<Complex<f64>>::new(&p, &r);
    for g in key.rows_mut(&p, &r) {
        any_ggsw::<S>(&p, &r).fft(g, &p, &r);
    }
    poison(8, 4 * n);
    let x = any_glwe::<S>(&p);
    let mut o = any_glwe::<S>(&p);
    blind_rotation(&mut o, &key, &x, &p, &r);
    let mut acc = x.clone();
    let mut tmp = acc.clone();
    let mut cnt = 0;
    for (i, g) in key.rows(&p, &r).enumerate() {
        rotate_glwe_monomial_negacyclic(&mut tmp, &acc, -(1isize << i), &p);
        let mut nx = GlweCiphertext::<S>::new(&p);
        fft_ops::cmux(&mut nx, &acc, &tmp, g, &p, &r);
        acc = nx;
        cnt += 1;
    }
    sx::assert(1 << cnt == n, 2);
    for (g, w) in polys(&o, &p).iter().zip(&polys(&acc, &p)) {
        close_all(g, w, tol, 1);
    }
    sx::reach(1);
}
/// a shift key holds the bits of the rotation, least significant first
fn blind_key<S: W>(n: usize, tol: u32) {
    let p = glwe(n, sx::choose(1, 2) as usize);
    let r = radix(2, 4);
    let b = 1u64 << 12;
    noise(b, -(S::BITS as i32));
    let sk = any_glwe_key::<S>(&p);
    let s = glwe_key(&sk, &p);
    let rot = sx::choose(0, n as u64 - 1) as usize;
    poison(8, 4 * n);
    let mut key = BlindRotationShiftFft::<Complex<f64>>::new(&p, &r);
    generate_blind_rotation_shift(&mut key, rot, &sk, &no_noise(&p), &r, PlaintextBits(1));
    let mut cnt = 0;
    for (i, g) in key.rows(&p, &r).enumerate() {
        let mut g0 = GgswCiphertext::<S>::new(&p, &r);
        g.ifft(&mut g0, &p, &r);
        let mut m = vec![S::of(0); n];
        m[0] = S::of((rot >> i & 1) as u64);
        for (x, row) in g0.rows(&p, &r).enumerate() {
            let mut want = m.clone();
            if x < p.dim.size.0 {
                want = vec![S::of(0); n];
                ref_mad(&mut want, &m, &s[x * n..(x + 1) * n]);
                want = want.iter().map(|x| x.wrapping_neg()).collect();
            }
            for (j, c) in row.glwe_ciphertexts(&p).enumerate() {
                close_all(&glwe_phase(c, &s, &p), &scaled(&want, &r, j), tol, 1);
            }
        }
        cnt += 1;
    }
    sx::assert(1 << cnt == n, 2);
    sx::reach(1);
}
harness! {
fn h_lut64() { lut::<u64>(1 << sx::choose(1, 4), 1) }
fn h_lut32() { lut::<u32>(1 << sx::choose(1, 4), 1) }
fn h_lut_multi64() { lut::<u64>(16 << sx::choose(0, 1), sx::choose(2, 4) as usize) }
fn h_lut_multi32() { lut::<u32>(16, sx::choose(2, 4) as usize) }
fn h_lut_fill64() { lut_fill::<u64>() }
fn h_lut_fill32() { lut_fill::<u32>() }
fn h_lut_biv64() { lut_biv::<u64>(16 << sx::choose(0, 1)) }
fn h_lut_biv32() { lut_biv::<u32>(16) }
fn h_lut_range() { lut_range() }
fn h_rotate64() { rotate::<u64>() }
fn h_rotate32() { rotate::<u32>() }
fn h_bsk64() { bsk::<u64>() }
fn h_bsk32() { bsk::<u32>() }
fn h_pbs_fft_steps64() { pbs_steps::<u64>(16, 1, 1, radix(2, 4), &[0, 1, 30, 33, 62, 63], 0, 46) }
fn h_pbs_fft_steps64_n2() { pbs_steps::<u64>(16, 2, 1, radix(1, 4), &[0, 11, 36], 0, 46) }
fn h_pbs_fft_steps64_v() { pbs_steps::<u64>(16, 1, 2, radix(1, 4), &[0, 1, 14, 17, 31], 1, 46) }
fn h_pbs_fft_steps32() { pbs_steps::<u32>(16, 1, 1, radix(2, 4), &[0, 11, 36, 63], 0, 14) }
fn h_pbs_fft_end64() { pbs_end::<u64>(16, 1, 2, &[0, 21], 1, 50) }
fn h_pbs_fft_end64_n2() { pbs_end::<u64>(16, 2, 1, &[38], 3, 50) }
fn h_pbs_fft_end32() { pbs_end::<u32>(16, 1, 1, &[63], 1, 18) }
fn h_pbs_fft_biv64() { pbs_biv::<u64>(16, &[27, 42], 50) }
fn h_blindrot_fft_steps64() { blind_steps::<u64>(16, radix(1, 4), 46) }
fn h_blindkey_fft64() { blind_key::<u64>(4, 16) }
}
