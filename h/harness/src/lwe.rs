//! LWE secret-key and public-key encryption
use crate::harness;
use crate::util::*;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::*;

/// decrypt(encrypt(m)) = m while the noise is below half a plaintext step; also into a used ciphertext
fn roundtrip<S: W>(n: usize) {
    let p = lwe(n);
    let bits = sx::choose(1, S::BITS as u64 - 2) as u32;
    let k = S::BITS - bits - 1;
    noise(((1u64 << k) - 1).min(1 << 52), -(S::BITS as i32));
    let sk = any_lwe_key::<S>(&p);
    let m = S::of(sx::bits(bits));
    let (ct, e) = sk.encrypt(m, &p, PlaintextBits(bits));
    let ph = lwe_phase(&ct, sk.s(), &p);
    sx::reach(1);
    sx::assert(ph == S::of(u(m) << (S::BITS - bits)).wrapping_add(&e.inner()), 1);
    sx::assert(sk.decrypt_without_decode(&ct, &p).inner() == ph, 2);
    sx::assert(sk.decrypt(&ct, &p, PlaintextBits(bits)) == m, 3);
    let mut d = any_lwe::<S>(&p);
    let e = encode_and_encrypt_lwe_ciphertext(&mut d, &sk, m, &p, PlaintextBits(bits));
    sx::assert(lwe_phase(&d, sk.s(), &p) == S::of(u(m) << (S::BITS - bits)).wrapping_add(&e.inner()), 4);
    let mut d = any_lwe::<S>(&p);
    trivially_encrypt_lwe_ciphertext(&mut d, &Torus::encode(m, PlaintextBits(bits)), &p);
    sx::assert(sk.decrypt(&d, &p, PlaintextBits(bits)) == m, 5);
    for a in d.a(&p) {
        sx::assert(a.inner() == S::of(0), 6);
    }
}
/// decryption with carry bits, whatever is in the carry space
fn carry() {
    let p = lwe(3);
    let bits = sx::choose(1, 62) as u32;
    let mut carry = sx::choose(0, 4.min(63 - bits as u64)) as u32;
    if carry == 4 {
        carry = 63 - bits;
    }
    let tot = bits + carry;
    let sk = LweSecretKey::<u64>::generate_uniform(&p);
    let m = sx::bits(tot);
    let half = 1i64 << (63 - tot);
    let e = sx::irange(-half, half - 1) as u64;
    let mut ct = any_lwe::<u64>(&p);
    encrypt_lwe_ciphertext(&mut ct, &sk, t((m << (64 - tot)).wrapping_add(e)), &p);
    let got = high_level::encryption::decrypt_lwe_with_carry(&ct, &sk, &p, PlaintextBits(bits), CarryBits(carry));
    sx::reach(1);
    sx::assert(got == m & ((1 << bits) - 1), 1);
}
/// every mask word is a fresh uniform draw, no draw is used twice, every error has the configured deviation
fn fresh<S: W>(n: usize) {
    let p = lwe(n);
    noise(1 << 20, -(S::BITS as i32));
    let sk = LweSecretKey::<S>::generate_uniform(&p);
    let s = sk.s().to_vec();
    rng_reset();
    let m = t(S::any());
    let (mut c, mut d) = (any_lwe::<S>(&p), any_lwe::<S>(&p));
    let e0 = encrypt_lwe_ciphertext(&mut c, &sk, m, &p);
    let e1 = encrypt_lwe_ciphertext(&mut d, &sk, m, &p);
    let mut masks: Vec<S> = c.a(&p).iter().map(|x| x.inner()).collect();
    masks.extend(d.a(&p).iter().map(|x| x.inner()));
    fresh_words(&masks, 1);
    sx::assert(stds() == 2 && std_all(STD), 4);
    sx::reach(1);
    // the reported error is the actual one
    sx::assert(lwe_phase(&c, &s, &p) == m.inner().wrapping_add(&e0.inner()), 5);
    sx::assert(lwe_phase(&d, &s, &p) == m.inner().wrapping_add(&e1.inner()), 6);
}
/// key generation: right length, binary keys binary, every word from its own draw
fn keygen<S: W>(n: usize) {
    let p = lwe(n);
    rng_reset();
    let sk = LweSecretKey::<S>::generate_binary(&p);
    sx::assert(sk.s().len() == n, 1);
    for x in sk.s() {
        sx::assert(u(*x) <= 1, 2);
    }
    binary_words(sk.s(), 3);
    rng_reset();
    let sk = LweSecretKey::<S>::generate_uniform(&p);
    sx::assert(sk.s().len() == n, 5);
    fresh_words(sk.s(), 6);
    sx::reach(1);
}
/// public keys: every row encrypts zero under fresh randomness; public-key ciphertexts decrypt
fn public<S: W>(n: usize, bits: u32) {
    let p = lwe(n);
    // |e| + n|r e_i| + n|s e_a| <= (2n+1) B < 2^(BITS-bits-1)
    let b = ((1u64 << (S::BITS - bits - 1)) - 1) / (2 * n as u64 + 1);
    noise(b.min(1 << 52), -(S::BITS as i32));
    let sk = LweSecretKey::<S>::generate_binary(&p);
    let s = sk.s().to_vec();
    rng_reset();
    let pk = LwePublicKey::<S>::generate(&sk, &p);
    let mut masks: Vec<S> = vec![];
    let mut errs: Vec<S> = vec![];
    for z in pk.enc_zeros(&p) {
        masks.extend(z.a(&p).iter().map(|x| x.inner()));
        errs.push(lwe_phase(z, &s, &p));
    }
    sx::assert(errs.len() == n, 1);
    fresh_words_in(&masks, 0, rng_len(), 2);
    sx::assert(stds() == n && std_all(STD), 4);
    for e in &errs {
        sx::assert(S::s(*e).unsigned_abs() <= b, 5);
    }
    let m = S::of(sx::bits(bits));
    std_reset();
    let l0 = rng_len();
    let (ct, r) = pk.encrypt(m, &p, PlaintextBits(bits));
    sx::assert(stds() == n + 1 && std_all(STD), 6);
    sx::assert(r.r.len() == n, 7);
    // exact noise budget from the reported randomness
    let mut want = S::of(u(m) << (S::BITS - bits)).wrapping_add(&lwe_phase(&r.e, &s, &p));
    for i in 0..n {
        want = want.wrapping_add(&errs[i].wrapping_mul(&r.r[i]));
        sx::assert(u(r.r[i]) <= 1, 8);
    }
    binary_words_in(&r.r, l0, rng_len(), 13);
    sx::assert(lwe_phase(&ct, &s, &p) == want, 9);
    let (ea, eb) = r.e.a_b(&p);
    sx::assert(S::s(eb.inner()).unsigned_abs() <= b, 10);
    for x in ea {
        sx::assert(S::s(x.inner()).unsigned_abs() <= b, 11);
    }
    sx::reach(1);
    sx::assert(sk.decrypt(&ct, &p, PlaintextBits(bits)) == m, 12);
}
harness! {
fn h_lwe_rt64() { roundtrip::<u64>(4) }
fn h_lwe_rt32() { roundtrip::<u32>(4) }
fn h_lwe_rt64_1() { roundtrip::<u64>(1) }
fn h_lwe_carry() { carry() }
fn h_lwe_fresh64() { fresh::<u64>(3) }
fn h_lwe_fresh32() { fresh::<u32>(3) }
fn h_lwe_keygen64() { keygen::<u64>(4) }
fn h_lwe_keygen32() { keygen::<u32>(4) }
fn h_lwe_public64() { public::<u64>(2, sx::choose(1, 5) as u32) }
fn h_lwe_public32() { public::<u32>(2, sx::choose(1, 5) as u32) }
}
