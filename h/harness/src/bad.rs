//! Arguments of the wrong size: no memory outside them is touched, and functions that state the sizes they need refuse others
use crate::harness;
use crate::util::*;
use num::Complex;
use std::cell::Cell;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::homomorphisms::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::*;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::*;
type E = u64;

/// ring degree, size, digits, dimension
#[derive(Clone, Copy)]
struct Sh { n: usize, k: usize, c: usize, m: usize }
impl Sh {
    fn g(&self) -> GlweDef { glwe(self.n, self.k) }
    fn r(&self) -> RadixDecomposition { radix(self.c, 4) }
    fn l(&self) -> LweDef { lwe(self.m) }
    fn vary(&self, v: u64) -> Sh {
        let mut s = *self;
        match v {
            0 => s.n /= 2,
            1 => s.n *= 2,
            2 => s.k += 1,
            3 => s.k -= 1,
            4 => s.c += 1,
            5 => s.c -= 1,
            6 => s.m += 1,
            _ => s.m -= 1,
        }
        s
    }
}
/// makes the arguments of a call, the one at place `bad` for other parameters
struct Mk { s: Sh, bad: usize, t: Sh, next: Cell<usize>, zero: bool }
impl Mk {
    fn new(s: Sh, args: usize, zero: bool) -> Mk {
        sx::panic_ok(true);
        let bad = sx::choose(0, args as u64 - 1) as usize;
        let t = s.vary(sx::choose(0, 7));
        sx::assume(t.n > 0 && t.k > 0 && t.c > 0 && t.m > 0);
        Mk { s, bad, t, next: Cell::new(0), zero }
    }
    fn mk<R: ?Sized, T: std::ops::DerefMut<Target = R>>(&self, f: impl Fn(&Sh) -> T) -> T {
        let mut x = f(&self.s);
        let i = self.next.get();
        self.next.set(i + 1);
        if i == self.bad {
            let y = f(&self.t);
            sx::assume(size_of_val(&*x) != size_of_val(&*y));
            x = y;
        }
        if !self.zero {
            fill::<E, R>(&mut *x);
        }
        x
    }
    fn lwe(&self) -> LweCiphertext<E> { self.mk(|s| LweCiphertext::new(&s.l())) }
    fn glwe(&self) -> GlweCiphertext<E> { self.mk(|s| GlweCiphertext::new(&s.g())) }
    /// ciphertext of dimension size * degree, as extracted
    fn ext(&self) -> LweCiphertext<E> { self.mk(|s| LweCiphertext::new(&lwe(s.n * s.k))) }
    fn lkey(&self) -> LweSecretKey<E> { self.mk(|s| LweSecretKey::generate_binary(&s.l())) }
    fn gkey(&self) -> GlweSecretKey<E> { self.mk(|s| GlweSecretKey::generate_binary(&s.g())) }
    fn poly(&self) -> Polynomial<E> { self.mk(|s| Polynomial::zero(s.n)) }
    fn tpoly(&self) -> Polynomial<Torus<E>> { self.mk(|s| Polynomial::zero(s.n)) }
    fn glev(&self) -> GlevCiphertext<E> { self.mk(|s| GlevCiphertext::new(&s.g(), &s.r())) }
    fn ggsw(&self) -> GgswCiphertext<E> { self.mk(|s| GgswCiphertext::new(&s.g(), &s.r())) }
    fn ggsw_fft(&self) -> GgswCiphertextFft<Complex<f64>> { self.mk(|s| GgswCiphertextFft::new(&s.g(), &s.r())) }
    fn glwe_fft(&self) -> GlweCiphertextFft<Complex<f64>> { self.mk(|s| GlweCiphertextFft::new(&s.g())) }
    fn poly_fft(&self) -> PolynomialFft<Complex<f64>> { self.mk(|s| PolynomialFft::new(&vec![Complex::new(0.0, 0.0); s.n / 2])) }
    fn bsk_fft(&self) -> BootstrapKeyFft<Complex<f64>> { self.mk(|s| BootstrapKeyFft::new(&s.l(), &s.g(), &s.r())) }
    fn lut(&self) -> UnivariateLookupTable<E> { self.mk(|s| UnivariateLookupTable::trivial_from_fn(|x| x, &s.g(), PlaintextBits(1))) }
}
/// reached only if the call was not refused
fn refused(code: u32) { sx::assert(false, code) }

/// integer operations that only promise to stay inside their arguments
fn loose() {
    let s = Sh { n: 2, k: 2, c: 2, m: 2 };
    let (p, r, l, b) = (s.g(), s.r(), s.l(), PlaintextBits(2));
    match sx::choose(0, 21) {
        0 => { let m = Mk::new(s, 3, false); add_glwe_ciphertexts(&mut m.glwe(), &m.glwe(), &m.glwe(), &p) }
        1 => { let m = Mk::new(s, 3, false); sub_glwe_ciphertexts(&mut m.glwe(), &m.glwe(), &m.glwe(), &p) }
        2 => { let m = Mk::new(s, 1, false); glwe_negate_inplace(&mut m.glwe(), &p) }
        3 => { let m = Mk::new(s, 3, false); glwe_polynomial_mad(&mut m.glwe(), &m.glwe(), &m.poly(), &p) }
        4 => { let m = Mk::new(s, 2, false); glwe_scalar_mad(&mut m.glwe(), &m.glwe(), E::any(), &p) }
        5 => { let m = Mk::new(s, 3, false); glwe_ggsw_mad(&mut m.glwe(), &m.glwe(), &m.ggsw(), &p, &r) }
        6 => { let m = Mk::new(s, 2, false); external_product_ggsw_glwe(&m.ggsw(), &m.glwe(), &p, &r); }
        7 => { let m = Mk::new(s, 2, false); glwe_mod_switch_and_expand_pow_2(&mut m.glwe(), &m.glwe(), &p, 8) }
        8 => { let m = Mk::new(s, 2, false); add_lwe_inplace(&mut m.lwe(), &m.lwe(), &l) }
        9 => { let m = Mk::new(s, 1, false); lwe_ciphertext_modulus_switch(&mut m.lwe(), 0, 0, 6, &l) }
        10 => { let m = Mk::new(s, 3, true); encrypt_ggsw_ciphertext(&mut m.ggsw(), &m.poly(), &m.gkey(), &p, &r, b) }
        11 => { let m = Mk::new(s, 2, true); trivially_encrypt_ggsw_ciphertext(&mut m.ggsw(), &m.poly(), &p, &r, b) }
        12 => { let m = Mk::new(s, 2, true); encrypt_ggsw_ciphertext_scalar(&mut m.ggsw(), 1, &m.gkey(), &p, &r, b) }
        13 => { let m = Mk::new(s, 2, false); trivially_encrypt_glev_ciphertext(&mut m.glev(), &m.tpoly(), &p, &r) }
        14 => { let m = Mk::new(s, 3, false); encrypt_glwe_ciphertext_secret(&mut m.glwe(), &m.tpoly(), &m.gkey(), &p) }
        15 => { let m = Mk::new(s, 2, false); trivially_encrypt_glwe_ciphertext(&mut m.glwe(), &m.tpoly(), &p) }
        16 => { let m = Mk::new(s, 3, false); decrypt_glwe_ciphertext(&mut m.tpoly(), &m.glwe(), &m.gkey(), &p) }
        17 => { let m = Mk::new(s, 2, false); encrypt_lwe_ciphertext(&mut m.lwe(), &m.lkey(), t(E::any()), &l); }
        18 => { let m = Mk::new(s, 2, false); rotate_glwe_monomial_negacyclic(&mut m.glwe(), &m.glwe(), sx::irange(-5, 5) as isize, &p) }
        19 => { let m = Mk::new(s, 3, false); keyswitch_glwe_to_glwe(&mut m.glwe(), &m.glwe(), &m.mk(|s| GlweKeyswitchKey::<E>::new(&s.g(), &s.r())), &p, &r) }
        20 => { let m = Mk::new(s, 3, false); generate_keyswitch_key_glwe(&mut m.mk(|s| GlweKeyswitchKey::<E>::new(&s.g(), &s.r())), &m.gkey(), &m.gkey(), &p, &r) }
        _ => { let m = Mk::new(s, 2, false); polynomial_shr_round(&mut m.poly(), &m.poly(), 3) }
    }
    sx::reach(1);
}
/// operations that refuse arguments of other sizes
fn strict() {
    let s = Sh { n: 2, k: 2, c: 2, m: 2 };
    let (p, r, l, b) = (s.g(), s.r(), s.l(), PlaintextBits(2));
    let op = sx::choose(0, 21);
    match op {
        0 => { let m = Mk::new(s, 2, false); generate_automorphism_key(&mut m.mk(|s| AutomorphismKey::<E>::new(&s.g(), &s.r())), &m.gkey(), &p, &r) }
        1 => { let m = Mk::new(s, 3, false); generate_bootstrap_key(&mut m.mk(|s| BootstrapKey::<E>::new(&s.l(), &s.g(), &s.r())), &m.lkey(), &m.gkey(), &l, &p, &r) }
        2 => { let m = Mk::new(s, 2, false); generate_scheme_switch_key(&mut m.mk(|s| SchemeSwitchKey::<E>::new(&s.g(), &s.r())), &m.gkey(), &p, &r) }
        3 => { let m = Mk::new(s, 3, false); scheme_switch(&mut m.ggsw(), &m.glev(), &m.mk(|s| SchemeSwitchKey::<E>::new(&s.g(), &s.r())), &p, &r, &r) }
        4 => { let m = Mk::new(s, 2, false); sample_extract(&mut m.ext(), &m.glwe(), 1, &p) }
        5 => { let m = Mk::new(s, 2, false); glwe_add_assign(&mut m.glwe(), &m.glwe(), &p) }
        6 => { let m = Mk::new(s, 3, false); decrypt_ggsw_ciphertext(&mut m.tpoly(), &m.ggsw(), &m.gkey(), &p, &r) }
        7 => {
            let s = Sh { k: 1, ..s };
            let m = Mk::new(s, 3, false);
            sx::assume(m.t.k == 1);
            encrypt_rlev_ciphertext(&mut m.glev(), &m.tpoly(), &m.mk(|s| RlwePublicKey::<E>::new(&s.g())), &s.g(), &r)
        }
        8 => { let m = Mk::new(s, 1, false); trivially_encrypt_lwe_ciphertext(&mut m.lwe(), &t(E::any()), &l) }
        9 => { let m = Mk::new(s, 2, false); lwe_rotate(&mut m.lwe(), &m.lwe(), t(E::any()), &l) }
        10 => { let m = Mk::new(s, 3, false); keyswitch_lwe_to_lwe(&mut m.lwe(), &m.lwe(), &m.mk(|s| LweKeyswitchKey::<E>::new(&s.l(), &s.l(), &s.r())), &l, &l, &r) }
        11 => { let m = Mk::new(s, 3, false); generate_keyswitch_key_lwe(&mut m.mk(|s| LweKeyswitchKey::<E>::new(&s.l(), &s.l(), &s.r())), &m.lkey(), &m.lkey(), &l, &l, &r) }
        12 | 13 => {
            let z = PrivateFunctionalKeyswitchLweCount(1);
            let key = |s: &Sh| PrivateFunctionalKeyswitchKey::<E>::new(&s.l(), &s.g(), &s.r(), &z);
            let m = Mk::new(s, 3, false);
            if op == 12 {
                generate_private_functional_keyswitch_key(&mut m.mk(key), &m.lkey(), &m.gkey(), |p, x| p.coeffs_mut()[0] = x[0], &l, &p, &r, &z)
            } else {
                sx::assume(m.bad != 1);
                let (mut o, _, k) = (m.glwe(), m.lwe(), m.mk(key));
                private_functional_keyswitch(&mut o, &[&LweCiphertext::new(&l)], &k, &l, &p, &r, &z)
            }
        }
        14 => { let m = Mk::new(s, 3, false); generate_circuit_bootstrapping_pfks_keys(&mut m.mk(|s| CircuitBootstrappingKeyswitchKeys::<E>::new(&s.l(), &s.g(), &s.r())), &m.lkey(), &m.gkey(), &l, &p, &r) }
        15 => { let m = Mk::new(s, 3, false); generate_public_functional_keyswitch_key(&mut m.mk(|s| PublicFunctionalKeyswitchKey::<E>::new(&s.l(), &s.g(), &s.r())), &m.lkey(), &m.gkey(), &l, &p, &r) }
        16 => { let m = Mk::new(s, 3, false); public_functional_keyswitch(&mut m.glwe(), &[&*m.lwe()], &m.mk(|s| PublicFunctionalKeyswitchKey::<E>::new(&s.l(), &s.g(), &s.r())), |p, x| p.coeffs_mut()[0] = x[0], &l, &p, &r) }
        17 => { let m = Mk::new(s, 2, false); encode_polynomial(&mut m.tpoly(), &m.poly(), b) }
        18 => { let m = Mk::new(s, 2, false); decode_polynomial(&mut m.poly(), &m.tpoly(), b) }
        19 => { let m = Mk::new(s, 2, false); polynomial_pow_k::<Torus<E>, E>(&mut m.tpoly(), &m.tpoly(), 3) }
        20 => { let m = Mk::new(s, 3, false); encrypt_secret_glev_ciphertext(&mut m.glev(), &m.tpoly(), &m.gkey(), &p, &r) }
        _ => { let m = Mk::new(s, 3, false); decrypt_glev_ciphertext(&mut m.tpoly(), &m.glev(), &m.gkey(), &p, &r) }
    }
    refused(100 + op as u32);
}
/// frequency-domain operations
fn loose_fft() {
    let s = Sh { n: 16, k: 2, c: 2, m: 1 };
    let (p, r) = (s.g(), s.r());
    match sx::choose(0, 9) {
        0 => { let m = Mk::new(s, 3, true); fft_ops::glwe_ggsw_mad(&mut m.glwe_fft(), &m.glwe(), &m.ggsw_fft(), &p, &r) }
        1 => { let m = Mk::new(s, 3, true); fft_ops::glwe_polynomial_mad(&mut m.glwe_fft(), &m.glwe_fft(), &m.poly_fft(), &p) }
        2 => { let m = Mk::new(s, 3, true); fft_ops::keyswitch_glwe_to_glwe(&mut m.glwe(), &m.glwe(), &m.mk(|s| GlweKeyswitchKeyFft::new(&s.g(), &s.r())), &p, &r) }
        3 => { let m = Mk::new(s, 3, true); m.poly_fft().multiply_add(&m.poly_fft(), &m.poly_fft()) }
        4 => { let m = Mk::new(s, 2, true); m.tpoly().fft(&mut m.poly_fft()) }
        5 => { let m = Mk::new(s, 2, true); m.poly_fft().ifft(&mut *m.tpoly()) }
        6 => { let m = Mk::new(s, 4, true); fft_ops::glev_cmux(&mut m.glev(), &m.glev(), &m.glev(), &m.ggsw_fft(), &p, &r) }
        7 => { let m = Mk::new(s, 2, true); m.mk(|s| GlweKeyswitchKey::<E>::new(&s.g(), &s.r())).fft(&mut m.mk(|s| GlweKeyswitchKeyFft::new(&s.g(), &s.r())), &p, &r) }
        8 => { let m = Mk::new(s, 2, true); m.mk(|s| AutomorphismKey::<E>::new(&s.g(), &s.r())).fft(&mut m.mk(|s| AutomorphismKeyFft::new(&s.g(), &s.r())), &p, &r) }
        _ => { let m = Mk::new(s, 3, true); blind_rotation(&mut m.glwe(), &m.mk(|s| BlindRotationShiftFft::new(&s.g(), &s.r())), &m.glwe(), &p, &r) }
    }
    sx::reach(1);
}
fn strict_fft() {
    let s = Sh { n: 16, k: 2, c: 2, m: 1 };
    let (p, r, l) = (s.g(), s.r(), s.l());
    let op = sx::choose(0, 7);
    match op {
        0 => { let m = Mk::new(s, 3, true); trace(&mut m.glwe(), &m.glwe(), &m.mk(|s| AutomorphismKeyFft::new(&s.g(), &s.r())), &p, &r) }
        1 => { let m = Mk::new(s, 4, true); generalized_programmable_bootstrap(&mut m.glwe(), &m.lwe(), &m.lut(), &m.bsk_fft(), 0, 0, &l, &p, &r) }
        2 => { let m = Mk::new(s, 4, true); fft_ops::cmux(&mut m.glwe(), &m.glwe(), &m.glwe(), &m.ggsw_fft(), &p, &r) }
        3 => { let m = Mk::new(s, 3, true); fft_ops::scheme_switch_fft(&mut m.ggsw_fft(), &m.glev(), &m.mk(|s| SchemeSwitchKeyFft::new(&s.g(), &s.r())), &p, &r, &r) }
        4 => { let m = Mk::new(s, 2, true); m.glwe().fft(&mut m.glwe_fft(), &p) }
        5 => { let m = Mk::new(s, 2, true); m.ggsw().fft(&mut m.ggsw_fft(), &p, &r) }
        6 => { let m = Mk::new(s, 2, true); m.mk(|s| BootstrapKey::<E>::new(&s.l(), &s.g(), &s.r())).fft(&mut m.bsk_fft(), &l, &p, &r) }
        _ => { let m = Mk::new(s, 2, true); m.mk(|s| SchemeSwitchKey::<E>::new(&s.g(), &s.r())).fft(&mut m.mk(|s| SchemeSwitchKeyFft::new(&s.g(), &s.r())), &p, &r) }
    }
    refused(100 + op as u32);
}
/// the right sizes are accepted (the checks above are not vacuous)
fn right() {
    let s = Sh { n: 2, k: 2, c: 2, m: 2 };
    let p = s.g();
    let mut a = GlweCiphertext::<E>::new(&p);
    let b = a.clone();
    glwe_add_assign(&mut a, &b, &p);
    sx::assert(ws::<E, _>(&*a).len() == 6, 1);
    sx::reach(1);
}
harness! {
fn h_bad_loose() { loose() }
fn h_bad_strict() { strict() }
fn h_bad_loose_fft() { loose_fft() }
fn h_bad_strict_fft() { strict_fft() }
fn h_bad_right() { right() }
}
