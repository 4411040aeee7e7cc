use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::math::radix::ScalarRadixIterator;
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::*;

unsafe extern "C" {
    pub static mut SX_CPU: u32;
    pub static mut SX_PAR: u32;
    pub static mut SX_NOISE_BOUND: u64;
    pub static mut SX_NOISE_EXP: i32;
    pub static mut SX_SAMPLES: u64;
    pub static mut SX_STD_LOG: [u64; 64];
    pub static mut SX_STD_LOG_LEN: usize;
    pub static mut SX_RNG_LOG: [u64; 256];
    pub static mut SX_RNG_LEN: usize;
}
/// unsigned word of the scalar type under test
pub trait W: TorusOps + std::hash::Hash + Into<u64> {
    fn any() -> Self;
    fn s(v: Self) -> i64;
    fn of(v: u64) -> Self;
    fn of_trunc(v: u64) -> Self { Self::of(v) }
}
impl W for u64 {
    fn any() -> Self { sx::u64() }
    fn s(v: Self) -> i64 { v as i64 }
    fn of(v: u64) -> Self { v }
}
impl W for u32 {
    fn any() -> Self { sx::u32() }
    fn s(v: Self) -> i64 { v as i32 as i64 }
    fn of(v: u64) -> Self { v as u32 }
}
pub fn u<S: W>(v: S) -> u64 { v.into() }
/// fill the per-thread scratch pool with `n` buffers of arbitrary content and `words` words each
#[cfg(feature = "hook")]
pub fn poison(n: usize, words: usize) {
    use sunscreen_tfhe::verif_hooks as vh;
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(vh::allocate_scratch::<u64>(words));
    }
    for b in v.iter_mut() {
        for x in b.as_mut_slice() {
            *x = sx::u64();
        }
    }
}
#[cfg(not(feature = "hook"))]
pub fn poison(_n: usize, _words: usize) {}
pub fn noise(bound: u64, exp: i32) {
    unsafe {
        SX_NOISE_BOUND = bound;
        SX_NOISE_EXP = exp;
    }
}
pub fn cpu(v: u32) {
    unsafe { SX_CPU = v }
}
pub fn t<S: W>(v: S) -> Torus<S> { Torus::from(v) }
pub fn par(rev: bool, threads: u32) {
    unsafe { SX_PAR = rev as u32 | (threads - 1) << 1 }
}
/// |a-b| on the torus is at most 2^k
pub fn close<S: W>(a: Torus<S>, b: Torus<S>, k: u32) -> bool {
    let d = u((a - b).inner());
    let m = if S::BITS == 32 { 0xffff_ffff } else { u64::MAX };
    d.wrapping_add(1 << k) & m <= 2 << k
}
/// schoolbook c += a*b in Z[X]/(X^N+1), independent of the code under test
pub fn ref_mad<S: W>(c: &mut [S], a: &[S], b: &[S]) {
    let n = c.len();
    for i in 0..n {
        for j in 0..n {
            let p = a[i].wrapping_mul(&b[j]);
            if i + j < n {
                c[i + j] = c[i + j].wrapping_add(&p)
            } else {
                c[i + j - n] = c[i + j - n].wrapping_sub(&p)
            }
        }
    }
}

/// X^k * a in Z[X]/(X^N+1)
pub fn ref_monomial<S: W>(a: &[S], k: i128) -> Vec<S> {
    let n = a.len() as i128;
    let mut o = vec![S::of(0); a.len()];
    for i in 0..a.len() {
        let e = (i as i128 + k).rem_euclid(2 * n);
        if e < n {
            o[e as usize] = a[i]
        } else {
            o[(e - n) as usize] = a[i].wrapping_neg()
        }
    }
    o
}
/// a(X^k) in Z[X]/(X^N+1)
pub fn ref_pow<S: W>(a: &[S], k: usize) -> Vec<S> {
    let n = a.len();
    let mut o = vec![S::of(0); n];
    for i in 0..n {
        let e = (i * k) % (2 * n);
        if e < n {
            o[e] = o[e].wrapping_add(&a[i])
        } else {
            o[e - n] = o[e - n].wrapping_sub(&a[i])
        }
    }
    o
}
pub fn any_vec<S: W>(n: usize) -> Vec<S> { (0..n).map(|_| S::any()).collect() }
pub fn tpoly<S: W>(a: &[S]) -> Polynomial<Torus<S>> { Polynomial::new(&a.iter().map(|x| t(*x)).collect::<Vec<_>>()) }
/// every element equals the expected one
pub fn same<S: W>(got: &[Torus<S>], want: impl Fn(usize) -> S, code: u32) {
    for i in 0..got.len() {
        sx::assert(got[i].inner() == want(i), code);
    }
}

pub fn rng_reset() { unsafe { SX_RNG_LEN = 0; } std_reset() }
pub fn rng_len() -> usize { unsafe { SX_RNG_LEN } }
pub fn rng(i: usize) -> u64 { unsafe { SX_RNG_LOG[i] } }
pub fn std_reset() { unsafe { SX_STD_LOG_LEN = 0; SX_SAMPLES = 0; } }
/// Gaussian samples drawn since the last reset
pub fn stds() -> usize { unsafe { SX_SAMPLES as usize } }
/// each of them had this deviation
pub fn std_all(v: f64) -> bool {
    let mut ok = true;
    unsafe {
        for i in 0..SX_STD_LOG_LEN {
            ok &= SX_STD_LOG[i] == v.to_bits();
        }
    }
    ok
}
pub fn fresh_words<S: W>(v: &[S], code: u32) { fresh_words_in(v, 0, rng_len(), code) }
/// every word of `v` is one of the draws lo..hi, and no draw is used for two of them.
/// (The draws are arbitrary; assuming them pairwise different makes 'same draw' observable.)
pub fn fresh_words_in<S: W>(v: &[S], lo: usize, hi: usize, code: u32) {
    sx::assert(hi - lo >= v.len(), code);
    for i in lo..hi {
        for j in lo..i {
            sx::assume(S::of_trunc(rng(i)) != S::of_trunc(rng(j)));
        }
    }
    for (i, x) in v.iter().enumerate() {
        // usually the i-th draw; any other unused draw is as good
        let mut hit = *x == S::of_trunc(rng(lo + i));
        if !sx::holds(hit) {
            hit = false;
            for j in lo..hi {
                hit |= *x == S::of_trunc(rng(j));
            }
        }
        sx::assert(hit, code);
        for y in &v[..i] {
            sx::assert(*x != *y, code + 1);
        }
    }
}
pub fn binary_words<S: W>(v: &[S], code: u32) { binary_words_in(v, 0, rng_len(), code) }
/// every bit of `v` is one bit of a draw of its own
pub fn binary_words_in<S: W>(v: &[S], lo: usize, hi: usize, code: u32) {
    sx::assert(64 * (hi - lo) >= v.len(), code);
    let mut used = vec![0u64; hi - lo];
    for (i, x) in v.iter().enumerate() {
        let x = u(*x);
        let mut hit = false;
        'find: for d in 0..hi - lo {
            // usually the low bit of the i-th draw
            let j = (i + d) % (hi - lo);
            let r = rng(lo + j);
            for b in 0..64 {
                if used[j] >> b & 1 == 0 && sx::holds(x == r >> b & 1) {
                    used[j] |= 1 << b;
                    hit = true;
                    break 'find;
                }
            }
        }
        if !hit {
            // no draw of its own: report it against the draw the code is known to take
            sx::assert(x == rng(lo + i % (hi - lo)) & 1, code + 1);
            sx::assert(used[i % (hi - lo)] & 1 == 0, code + 1);
        } else {
            sx::assert(true, code + 1);
        }
    }
}
pub const STD: f64 = 0.0078125;
pub fn lwe(n: usize) -> LweDef { LweDef { dim: LweDimension(n), std: Stddev(STD) } }
/// noise of every sample bounded by min(2^52, 2^k)
pub fn noise_k<S: W>(k: u32) { noise(if k > 52 { 1 << 52 } else { 1 << k }, -(S::BITS as i32)) }
pub fn any_lwe<S: W>(p: &LweDef) -> LweCiphertext<S> {
    let mut c = LweCiphertext::<S>::new(p);
    let (a, b) = c.a_b_mut(p);
    for x in a {
        *x = t(S::any());
    }
    *b = t(S::any());
    c
}
pub fn any_lwe_key<S: W>(p: &LweDef) -> LweSecretKey<S> {
    if sx::choose(0, 1) == 0 { LweSecretKey::generate_binary(p) } else { LweSecretKey::generate_uniform(p) }
}
/// b - <a, s>, independent of the code under test
pub fn lwe_phase<S: W>(c: &LweCiphertextRef<S>, s: &[S], p: &LweDef) -> S {
    let (a, b) = c.a_b(p);
    let mut r = b.inner();
    for i in 0..s.len() {
        r = r.wrapping_sub(&a[i].inner().wrapping_mul(&s[i]));
    }
    r
}

pub fn glwe(n: usize, k: usize) -> GlweDef {
    GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: Stddev(STD) }
}
pub fn radix(count: usize, log: usize) -> RadixDecomposition { RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) } }
pub fn any_glwe<S: W>(p: &GlweDef) -> GlweCiphertext<S> {
    let mut c = GlweCiphertext::<S>::new(p);
    for a in c.a_mut(p) {
        for x in a.coeffs_mut() {
            *x = t(S::any());
        }
    }
    for x in c.b_mut(p).coeffs_mut() {
        *x = t(S::any());
    }
    c
}
pub fn any_glwe_key<S: W>(p: &GlweDef) -> GlweSecretKey<S> {
    if sx::choose(0, 1) == 0 { GlweSecretKey::generate_binary(p) } else { GlweSecretKey::generate_uniform(p) }
}
pub fn glwe_key<S: W>(k: &GlweSecretKeyRef<S>, p: &GlweDef) -> Vec<S> { k.s(p).flat_map(|x| x.coeffs().to_vec()).collect() }
pub fn inner<S: W>(v: &[Torus<S>]) -> Vec<S> { v.iter().map(|x| x.inner()).collect() }
/// b - sum a_i * s_i in Z[X]/(X^N+1), independent of the code under test
pub fn glwe_phase<S: W>(c: &GlweCiphertextRef<S>, s: &[S], p: &GlweDef) -> Vec<S> {
    let n = p.dim.polynomial_degree.0;
    let (a, b) = c.a_b(p);
    let mut acc = vec![S::of(0); n];
    let mut cnt = 0;
    for (i, ai) in a.enumerate() {
        ref_mad(&mut acc, &inner(ai.coeffs()), &s[i * n..(i + 1) * n]);
        cnt += 1;
    }
    assert!(cnt * n == s.len());
    inner(b.coeffs()).iter().zip(&acc).map(|(x, y)| x.wrapping_sub(y)).collect()
}
/// m * 2^(BITS - log*(j+1))
pub fn scaled<S: W>(m: &[S], r: &RadixDecomposition, j: usize) -> Vec<S> {
    let sh = S::BITS as usize - r.radix_log.0 * (j + 1);
    m.iter().map(|x| *x << sh).collect()
}
pub fn near<S: W>(a: &[S], b: &[S], bound: u64, code: u32) {
    for i in 0..a.len() {
        sx::assert(S::s(a[i].wrapping_sub(&b[i])).unsigned_abs() <= bound, code);
    }
}
pub fn any_ggsw<S: W>(p: &GlweDef, r: &RadixDecomposition) -> GgswCiphertext<S> {
    let mut g = GgswCiphertext::<S>::new(p, r);
    for row in g.rows_mut(p, r) {
        for c in row.glwe_ciphertexts_mut(p) {
            fill_glwe(c, p);
        }
    }
    g
}
pub fn fill_glwe<S: W>(c: &mut GlweCiphertextRef<S>, p: &GlweDef) {
    for a in c.a_mut(p) {
        for x in a.coeffs_mut() {
            *x = t(S::any());
        }
    }
    for x in c.b_mut(p).coeffs_mut() {
        *x = t(S::any());
    }
}
pub fn digits<S: W>(x: &[S], r: &RadixDecomposition) -> Vec<Vec<S>> {
    // [level][coefficient], most significant level first
    let mut o = vec![vec![]; r.count.0];
    for v in x {
        for (j, d) in ScalarRadixIterator::new(t(*v), r).enumerate() {
            o[r.count.0 - 1 - j].push(d);
        }
    }
    o
}
pub fn polys<S: W>(c: &GlweCiphertextRef<S>, p: &GlweDef) -> Vec<Vec<S>> {
    let mut v: Vec<Vec<S>> = c.a(p).map(|x| inner(x.coeffs())).collect();
    v.push(inner(c.b(p).coeffs()));
    v
}
/// the value the gadget digits stand for (the nearest multiple of the last step; decided by the decomposition check)
pub fn rounded<S: W>(x: S, r: &RadixDecomposition) -> S {
    let mut v = S::of(0);
    for (j, d) in ScalarRadixIterator::new(t(x), r).enumerate() {
        v = v.wrapping_add(&(d << (S::BITS as usize - r.radix_log.0 * (r.count.0 - j))));
    }
    v
}
pub fn rounded_phase<S: W>(a: &GlweCiphertextRef<S>, s: &[S], p: &GlweDef, r: &RadixDecomposition) -> Vec<S> {
    let mut c = GlweCiphertext::<S>::new(p);
    for (d, x) in c.a_mut(p).zip(a.a(p)) {
        for (d, x) in d.coeffs_mut().iter_mut().zip(x.coeffs()) {
            *d = t(rounded(x.inner(), r));
        }
    }
    for (d, x) in c.b_mut(p).coeffs_mut().iter_mut().zip(a.b(p).coeffs()) {
        *d = t(rounded(x.inner(), r));
    }
    glwe_phase(&c, s, p)
}
pub fn close_all<S: W>(got: &[S], want: &[S], tol: u32, code: u32) {
    for i in 0..got.len() {
        sx::assert(close(t(got[i]), t(want[i]), tol), code);
    }
}
/// the words of an entity
pub fn ws<E: W, R: ?Sized>(r: &R) -> &[E] {
    unsafe { std::slice::from_raw_parts(r as *const R as *const E, size_of_val(r) / size_of::<E>()) }
}
pub fn ws_mut<E: W, R: ?Sized>(r: &mut R) -> &mut [E] {
    unsafe { std::slice::from_raw_parts_mut(r as *mut R as *mut E, size_of_val(r) / size_of::<E>()) }
}
pub fn fill<E: W, R: ?Sized>(r: &mut R) -> Vec<E> {
    ws_mut::<E, R>(r).iter_mut().map(|x| { *x = E::any(); *x }).collect()
}
pub fn eq<E: W>(a: &[E], b: &[E], code: u32) {
    sx::assert(a.len() == b.len(), code);
    sx::assert(a.iter().zip(b).fold(true, |o, (x, y)| o & (u(*x) == u(*y))), code);
}
