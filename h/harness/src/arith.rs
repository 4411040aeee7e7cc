use crate::harness;
use crate::util::*;
use sunscreen_tfhe::math::radix::*;
use sunscreen_tfhe::*;

fn torus_roundtrip<S: W>() {
    let p = sx::choose(1, S::BITS as u64 - 1) as u32;
    let m = sx::bits(p);
    let half = 1i64 << (S::BITS - p - 1);
    let e = S::of(sx::irange(-half, half - 1) as u64);
    let t = Torus::<S>::encode(S::of(m), PlaintextBits(p));
    sx::reach(1);
    sx::assert(u(t.inner()) == m << (S::BITS - p), 1);
    sx::assert(u((t + Torus::from(e)).decode(PlaintextBits(p))) == m, 2);
    sx::assert(u((t - Torus::from(e)).decode(PlaintextBits(p))) == m || Torus::from(e).inner() == S::of(half as u64) || W_min(e, half), 3);
}
#[allow(non_snake_case)]
fn W_min<S: W>(e: S, half: i64) -> bool { S::s(e) == -half }
/// decode(t) is the nearest multiple for every t
fn torus_decode_nearest<S: W>() {
    let p = sx::choose(1, S::BITS as u64 - 1) as u32;
    let x = S::any();
    let d = u(t(x).decode(PlaintextBits(p)));
    sx::reach(1);
    sx::assert(d >> p == 0, 1);
    let back = Torus::<S>::encode(S::of(d), PlaintextBits(p));
    let diff = S::s((t(x) - back).inner());
    let half = 1i64 << (S::BITS - p - 1);
    sx::assert(diff >= -half && diff < half, 2);
}
/// encoding is additive: noise and messages add modulo 2^p
fn torus_additive<S: W>() {
    let p = sx::choose(1, S::BITS as u64 - 1) as u32;
    let (a, b) = (sx::bits(p), sx::bits(p));
    let mask = (1u64 << p) - 1;
    let pb = PlaintextBits(p);
    let s = Torus::<S>::encode(S::of(a), pb) + Torus::<S>::encode(S::of(b), pb);
    sx::reach(1);
    sx::assert(u(s.decode(pb)) == a.wrapping_add(b) & mask, 1);
    let d = Torus::<S>::encode(S::of(a), pb) - Torus::<S>::encode(S::of(b), pb);
    sx::assert(u(d.decode(pb)) == a.wrapping_sub(b) & mask, 2);
    let n = -Torus::<S>::encode(S::of(a), pb);
    sx::assert(u(n.decode(pb)) == 0u64.wrapping_sub(a) & mask, 3);
}
fn torus_ops<S: W>() {
    use num::traits::*;
    let (a, b, c) = (S::any(), S::any(), S::any());
    let m = |v: u64| if S::BITS == 32 { v & 0xffff_ffff } else { v };
    let (ua, ub, uc) = (u(a), u(b), u(c));
    sx::reach(1);
    sx::assert(u((t(a) + t(b)).inner()) == m(ua.wrapping_add(ub)), 1);
    sx::assert(u((t(a) - t(b)).inner()) == m(ua.wrapping_sub(ub)), 2);
    sx::assert(u((-t(a)).inner()) == m(0u64.wrapping_sub(ua)), 3);
    sx::assert(u((t(a) * b).inner()) == m(ua.wrapping_mul(ub)), 4);
    let mut x = t(a);
    x += t(b);
    sx::assert(u(x.inner()) == m(ua.wrapping_add(ub)), 5);
    let mut x = t(a);
    x -= t(b);
    sx::assert(u(x.inner()) == m(ua.wrapping_sub(ub)), 6);
    let mut x = t(a);
    x += &t(b);
    x -= &t(c);
    sx::assert(u(x.inner()) == m(ua.wrapping_add(ub).wrapping_sub(uc)), 7);
    sx::assert(u(num::traits::MulAdd::mul_add(t(a), b, t(c)).inner()) == m(ua.wrapping_mul(ub).wrapping_add(uc)), 8);
    sx::assert(u(WrappingAdd::wrapping_add(&t(a), &t(b)).inner()) == m(ua.wrapping_add(ub)), 9);
    sx::assert(u(WrappingSub::wrapping_sub(&t(a), &t(b)).inner()) == m(ua.wrapping_sub(ub)), 10);
    sx::assert(u(WrappingNeg::wrapping_neg(&t(a)).inner()) == m(0u64.wrapping_sub(ua)), 11);
    let s: Torus<S> = [t(a), t(b), t(c)].into_iter().sum();
    sx::assert(u(s.inner()) == m(ua.wrapping_add(ub).wrapping_add(uc)), 12);
    sx::assert(u((t(a) & t(b)).inner()) == ua & ub, 13);
    let k = sx::choose(0, S::BITS as u64 - 1) as usize;
    sx::assert(u((t(a) >> k).inner()) == ua >> k, 14);
    sx::assert(u((t(a) << k).inner()) == m(ua << k), 15);
}
/// the decomposition handed out by the scalar iterator
fn radix_scalar<S: W>(lo: u64, hi: u64, ranged: usize) {
    let log = sx::choose(lo, hi) as usize;
    let max = (S::BITS as usize - 1) / log;
    let count = sx::choose(1, max as u64) as usize;
    let x = S::any();
    let r = RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    let mut n = 0usize;
    let shift0 = S::BITS as usize - log * count;
    let mut acc = S::of(0);
    for d in ScalarRadixIterator::new(t(x), &r) {
        let half = 1i64 << (log - 1);
        if n < ranged || n + 1 == count {
            sx::assert(S::s(d) >= -half && S::s(d) < half, 1);
        }
        acc = acc.wrapping_add(&(d << (shift0 + log * n)));
        n += 1;
        if n > count { break; }
    }
    sx::assert(n == count, 2);
    let err = S::s(x.wrapping_sub(&acc));
    let h = 1i64 << (shift0 - 1);
    sx::reach(1);
    sx::assert(err >= -h && err < h, 3);
}
/// the polynomial iterator yields the same decomposition for every coefficient
fn radix_poly<S: W>(n: usize) {
    let log = sx::choose(1, S::BITS as u64 - 1) as usize;
    let max = ((S::BITS as usize - 1) / log).min(4);
    let count = sx::choose(1, max as u64) as usize;
    let r = RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
    let x = any_vec::<S>(n);
    let mut scratch = sunscreen_tfhe::entities::Polynomial::<S>::new(&any_vec::<S>(n));
    let mut d = sunscreen_tfhe::entities::Polynomial::<S>::new(&any_vec::<S>(n));
    let mut it: Vec<_> = x.iter().map(|v| ScalarRadixIterator::new(t(*v), &r)).collect();
    let px = tpoly(&x);
    let mut p = PolynomialRadixIterator::new(&px, &mut scratch, &r);
    for _ in 0..count {
        sx::assert(p.write_next(&mut d).is_some(), 1);
        for i in 0..n {
            sx::assert(d.coeffs()[i] == it[i].next().unwrap(), 2);
        }
    }
    sx::assert(p.write_next(&mut d).is_none(), 3);
    sx::reach(1);
}
/// rounded division is the nearest quotient, halves away from zero
fn rounddiv_u(a: u64, b: u64, q: u64) {
    sx::assume(b != 0);
    // |a - q b| <= b/2, up on ties
    let d = a as i128 - q as i128 * b as i128;
    sx::assert(2 * d < b as i128 && 2 * d >= -(b as i128), 1);
}
fn rounddiv_s(a: i64, b: i64, q: i64) {
    let d = a as i128 - q as i128 * b as i128;
    let m = (b as i128).abs();
    // halves away from zero
    sx::assert(2 * d <= m && 2 * d >= -m, 1);
    sx::assert(2 * d.abs() != m || q != 0 && (d < 0) != (a < 0), 2);
}
harness! {
fn h_rounddiv_u8() {
    use sunscreen_tfhe::math::RoundedDiv;
    let (a, b) = (sx::u8(), sx::u8());
    sx::assume(b != 0);
    rounddiv_u(a as u64, b as u64, a.div_rounded(b) as u64);
    sx::reach(1);
}
fn h_rounddiv_i8() {
    use sunscreen_tfhe::math::RoundedDiv;
    let (a, b) = (sx::u8() as i8, sx::u8() as i8);
    sx::assume(b != 0 && !(a == i8::MIN && b == -1));
    rounddiv_s(a as i64, b as i64, a.div_rounded(b) as i64);
    sx::reach(1);
}
fn h_rounddiv_u64() {
    use sunscreen_tfhe::math::RoundedDiv;
    let (a, b) = (sx::u64(), sx::u64());
    sx::assume(b != 0);
    rounddiv_u(a, b, a.div_rounded(b));
    sx::reach(1);
}
fn h_radix_poly64() { radix_poly::<u64>(5) }
fn h_radix_poly64_nosimd() { cpu(0); radix_poly::<u64>(3) }
fn h_radix_poly32() { radix_poly::<u32>(3) }
fn h_torus_rt32() { torus_roundtrip::<u32>() }
fn h_torus_rt64() { torus_roundtrip::<u64>() }
fn h_torus_nearest32() { torus_decode_nearest::<u32>() }
fn h_torus_nearest64() { torus_decode_nearest::<u64>() }
fn h_torus_add32() { torus_additive::<u32>() }
fn h_torus_add64() { torus_additive::<u64>() }
fn h_torus_ops32() { torus_ops::<u32>() }
fn h_torus_ops64() { torus_ops::<u64>() }
fn h_radix_s32() { radix_scalar::<u32>(1, 31, 2) }
fn h_radix_all32() { radix_scalar::<u32>(1, 31, 99) }
fn h_radix_all64_a() { radix_scalar::<u64>(1, 1, 99) }
fn h_radix_all64_b() { radix_scalar::<u64>(2, 4, 99) }
fn h_radix_all64_c() { radix_scalar::<u64>(5, 12, 99) }
fn h_radix_s64_a() { radix_scalar::<u64>(1, 1, 2) }
fn h_radix_s64_b() { radix_scalar::<u64>(2, 4, 2) }
fn h_radix_s64_c() { radix_scalar::<u64>(5, 12, 2) }
fn h_radix_s64_d() { radix_scalar::<u64>(13, 63, 2) }
fn h_torus_modswitch() {
    let x = sx::u64();
    let y = t(x).switch_modulus_smaller::<u32>();
    sx::reach(1);
    sx::assert(y.inner() as u64 == x >> 32, 1);
    let z = t(sx::u32());
    sx::assert(z.switch_modulus_smaller::<u32>().inner() == z.inner(), 2);
    sx::assert(t(x).switch_modulus_smaller::<u64>().inner() == x, 3);
}
}
