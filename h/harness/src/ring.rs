//! Rings of integers modulo q and modulo powers of two
use crate::harness;
use sunscreen_math::field::Field;
use sunscreen_math::ring::*;
use sunscreen_math::{BarrettConfig, One, Zero};

macro_rules! moduli { ($($c:ident $n:literal $m:literal $f:literal,)*) => {$(
    #[derive(BarrettConfig)]
    #[barrett_config(modulus = $m, num_limbs = $n, is_field = $f)]
    pub struct $c;
)*} }
moduli! {
    M2 1 "2" false,
    M5 1 "5" true,
    M17 1 "17" true,
    M257 1 "257" true,
    M1000 1 "1000" false,
    M32 1 "0xDEADBEEF" false,
    M61 1 "0x1FFFFFFFFFFFFFFF" true,
    M63 1 "0x7FFFFFFFFFFFFFE7" true,
    P63 1 "0x8000000000000000" false,
    D5 2 "5" true,
    D65 2 "0x1000000000000000D" true,
    D127 2 "0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF" true,
    P127 2 "0x80000000000000000000000000000000" false,
    Q255 4 "0x1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED" true,
}
type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

pub fn words<const N: usize>(x: &Uint<N>) -> [u64; N] { *x.as_words() }
fn any<const N: usize>() -> Uint<N> { Uint::from_words(std::array::from_fn(|_| sx::u64())) }
/// a < b
fn less(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b).fold(false, |l, (x, y)| (*x < *y) | ((*x == *y) & l))
}
fn same(a: &[u64], b: &[u64]) -> bool { a.iter().zip(b).fold(true, |l, (x, y)| l & (*x == *y)) }
/// a + b, carry
fn add(a: &[u64], b: &[u64]) -> (Vec<u64>, bool) {
    let mut c = false;
    let v = a.iter().zip(b).map(|(x, y)| {
        let s = *x as u128 + *y as u128 + c as u128;
        c = s >> 64 != 0;
        s as u64
    }).collect();
    (v, c)
}
fn neg(a: &[u64]) -> Vec<u64> {
    let n: Vec<u64> = a.iter().map(|x| !x).collect();
    let mut o = vec![0; a.len()];
    o[0] = 1;
    add(&n, &o).0
}
fn sub(a: &[u64], b: &[u64]) -> Vec<u64> { add(a, &neg(b)).0 }
/// a + b mod m, for a, b < m
fn add_mod(a: &[u64], b: &[u64], m: &[u64]) -> Vec<u64> {
    let (s, c) = add(a, b);
    let d = sub(&s, m);
    let r = c | !less(&s, m);
    s.iter().zip(&d).map(|(x, y)| if r { *y } else { *x }).collect()
}
fn elem<const N: usize, C: BarrettConfig<N>>() -> (Z<N, C>, [u64; N]) {
    let u = any::<N>();
    let m = C::MODULUS;
    let ok = less(&words(&u), &words(&m));
    match Z::<N, C>::try_from(u) {
        Ok(x) => {
            sx::assert(ok, 1);
            sx::assert(same(&words(&x.into_bigint()), &words(&u)), 2);
            (x, words(&u))
        }
        Err(_) => {
            sx::assert(!ok, 3);
            sx::assume(false);
            unreachable!()
        }
    }
}
fn linear<const N: usize, C: BarrettConfig<N>>() {
    let m = words(&C::MODULUS);
    let ((x, a), (y, b)) = (elem::<N, C>(), elem::<N, C>());
    let s = add_mod(&a, &b, &m);
    sx::assert(same(&words(&(x + y).val), &s), 10);
    sx::assert(same(&words(&(&x + &y).val), &s), 11);
    let z = vec![0; N];
    let nb: Vec<u64> = if same(&b, &z) { z.clone() } else { sub(&m, &b) };
    sx::assert(same(&words(&(-y).val), &nb), 12);
    sx::assert(same(&words(&(-&y).val), &nb), 13);
    let d = add_mod(&a, &nb, &m);
    sx::assert(same(&words(&(x - y).val), &d), 14);
    sx::assert((x == y) == same(&a, &b), 15);
    sx::assert((x < y) == less(&a, &b), 16);
    sx::assert(x.vartime_is_zero() == same(&a, &z), 17);
    sx::assert(same(&words(&Z::<N, C>::zero().val), &z), 18);
    let mut one = z;
    one[0] = 1;
    sx::assert(same(&words(&Z::<N, C>::one().val), &one), 19);
    sx::reach(1);
}
/// constants of the ring
fn consts<const N: usize, C: BarrettConfig<N>>() {
    let m = words(&<Z<N, C> as RingModulus<N>>::field_modulus());
    sx::assert(same(&m, &words(&C::MODULUS)), 20);
    let h = words(&<Z<N, C> as RingModulus<N>>::field_modulus_div_2());
    let (mut d, _) = add(&h, &h);
    d[0] |= m[0] & 1;
    sx::assert(same(&m, &d), 21);
    sx::reach(1);
}
fn mul1<C: BarrettConfig<1>>(full: bool) {
    let m = words(&C::MODULUS)[0];
    let (a, b) = (sx::u64(), sx::u64());
    if !full {
        sx::assume(a < m && b < m);
    }
    let o = words(&BarrettBackend::<1, C>::mul_mod(&Uint::from_u64(a), &Uint::from_u64(b)))[0];
    if full {
        sx::assert(o as u128 == (a as u128 * b as u128) % m as u128, 30);
    } else {
        let x = Z::<1, C>::try_from(Uint::from_u64(a)).unwrap();
        let y = Z::<1, C>::try_from(Uint::from_u64(b)).unwrap();
        sx::assert(words(&(x * y).val)[0] == o, 31);
        sx::assert(words(&(&x * &y).val)[0] == o, 32);
    }
    sx::reach(1);
}
/// products of N-limb values with small multiples of powers of two
fn mul_n<const N: usize, C: BarrettConfig<N>>(shift: usize) {
    let m = words(&C::MODULUS);
    let (x, a) = elem::<N, C>();
    let k = sx::choose(0, 3) as usize;
    let mut r = vec![0; N];
    for _ in 0..k {
        r = add_mod(&r, &a, &m);
    }
    for _ in 0..shift {
        r = add_mod(&r, &r.clone(), &m);
    }
    let mut c = [0u64; N];
    c[shift / 64] = (k as u64) << (shift % 64);
    let y = Z::<N, C>::try_from(Uint::from_words(c)).unwrap();
    sx::assert(same(&words(&(x * y).val), &r), 33);
    sx::assert(same(&words(&(y * x).val), &r), 34);
    sx::reach(1);
}
fn convert1<C: BarrettConfig<1>>(bits: u32) {
    let m = words(&C::MODULUS)[0];
    let v = sx::bits(bits) as u64;
    sx::assert(words(&Z::<1, C>::from(v).val)[0] == v % m, 40);
    sx::assert(words(&Z::<1, C>::from(v as u32).val)[0] == (v as u32) as u64 % m, 41);
    let h = (m / 2) as i64;
    let ok = |i: i64| (i <= h) & (i >= -h);
    let s = if sx::bool() { (v as i64).wrapping_neg() } else { v as i64 };
    let e = |i: i64| if i < 0 { m.wrapping_add(i as u64) } else { i as u64 };
    if ok(s) {
        sx::assert(words(&Z::<1, C>::from(s).val)[0] % m == e(s) % m, 42);
        sx::assert(words(&Z::<1, C>::from(s).val)[0] < m, 43);
    }
    let s = s as i32;
    if ok(s as i64) {
        sx::assert(words(&Z::<1, C>::from(s).val)[0] == e(s as i64) % m, 44);
    }
    sx::reach(1);
}
fn convert2<C: BarrettConfig<2>>() {
    let m = words(&C::MODULUS);
    let v = sx::u64();
    sx::assert(same(&words(&Z::<2, C>::from(v).val), &[v, 0]), 45);
    let s = v as i64;
    let e = if s < 0 { sub(&m, &[s.unsigned_abs(), 0]) } else { vec![v, 0] };
    sx::assert(same(&words(&Z::<2, C>::from(s).val), &e), 46);
    sx::reach(1);
}
fn inverse<C: BarrettConfig<1> + sunscreen_math::field::FieldConfig>(max: u64) {
    let m = words(&C::MODULUS)[0];
    let a = [sx::choose(1, max.min(m - 1))];
    let x = Z::<1, C>::try_from(Uint::from_u64(a[0])).unwrap();
    let i = x.inverse();
    let v = words(&i.val)[0];
    sx::assert(v < m, 50);
    sx::assert((v as u128 * a[0] as u128) % m as u128 == 1, 51);
    sx::reach(1);
}
macro_rules! zint { ($n:ident $t:ty, $any:expr) => {
    fn $n() {
        let (a, b): ($t, $t) = ($any, $any);
        let (x, y) = (ZInt::new(a), ZInt::from(b));
        sx::assert((x + y).0 == a.wrapping_add(b), 60);
        sx::assert((x - y).0 == a.wrapping_sub(b), 61);
        sx::assert((x * y).0 == a.wrapping_mul(b), 62);
        sx::assert((&x + &y).0 == a.wrapping_add(b), 63);
        sx::assert((-x).0 == a.wrapping_neg(), 64);
        sx::assert((-&x).0 == a.wrapping_neg(), 65);
        sx::assert((x == y) == (a == b), 66);
        sx::assert((x < y) == (a < b), 67);
        sx::assert(x.vartime_is_zero() == (a == 0), 68);
        sx::assert((x * ZInt::<$t>::one()).0 == a, 69);
        sx::assert((x + ZInt::<$t>::zero()).0 == a, 70);
        let (o, e) = (num::traits::ToBytes::to_le_bytes(&x), a.to_le_bytes());
        let o: &[u8] = o.as_ref();
        sx::assert(o.iter().zip(&e).fold(o.len() == e.len(), |l, (p, q)| l & (p == q)), 71);
        let (o, e) = (num::traits::ToBytes::to_be_bytes(&x), a.to_be_bytes());
        let o: &[u8] = o.as_ref();
        sx::assert(o.iter().zip(&e).fold(o.len() == e.len(), |l, (p, q)| l & (p == q)), 72);
    }
} }
zint!(zint8 u8, sx::u8());
zint!(zint16 u16, sx::bits(16) as u16);
zint!(zint32 u32, sx::u32());
zint!(zint64 u64, sx::u64());
zint!(zint128 u128, sx::u128());
fn extend() {
    let a = any::<2>();
    let e: Uint<4> = extend_bigint(&a);
    sx::assert(same(&words(&e), &[a.as_words()[0], a.as_words()[1], 0, 0]), 80);
    let e: Uint<2> = extend_bigint(&a);
    sx::assert(same(&words(&e), &words(&a)), 81);
    sx::reach(1);
}
harness! {
fn h_ring_linear1() { match sx::choose(0, 3) { 0 => linear::<1, M2>(), 1 => linear::<1, M32>(), 2 => linear::<1, M63>(), _ => linear::<1, P63>() } }
fn h_ring_linear2() { match sx::choose(0, 1) { 0 => linear::<2, D5>(), _ => linear::<2, P127>() } }
fn h_ring_linear2b() { linear::<2, D127>() }
fn h_ring_linear4() { linear::<4, Q255>() }
fn h_ring_consts() { consts::<1, M2>(); consts::<1, M32>(); consts::<1, M63>(); consts::<1, P63>(); consts::<2, D5>(); consts::<2, D127>(); consts::<4, Q255>() }
fn h_ring_mul_small() { match sx::choose(0, 3) { 0 => mul1::<M2>(true), 1 => mul1::<M5>(true), 2 => mul1::<M17>(true), _ => mul1::<M1000>(true) } }
fn h_ring_mul_mid() { match sx::choose(0, 1) { 0 => mul1::<M32>(true), _ => mul1::<M61>(true) } }
fn h_ring_mul_top() { match sx::choose(0, 1) { 0 => mul1::<M63>(true), _ => mul1::<P63>(true) } }
fn h_ring_mul() { match sx::choose(0, 4) { 0 => mul1::<M5>(false), 1 => mul1::<M32>(false), 2 => mul1::<M61>(false), 3 => mul1::<M63>(false), _ => mul1::<P63>(false) } }
fn h_ring_mul2() { mul_n::<2, D65>(1) }
fn h_ring_mul2b() { mul_n::<2, D127>(0) }
fn h_ring_mul4() { mul_n::<4, Q255>(1) }
fn h_ring_convert() { match sx::choose(0, 1) { 0 => convert1::<M2>(4), _ => convert1::<M5>(6) } }
fn h_ring_convert_k() { convert1::<M1000>(11) }
fn h_ring_convert_mid() { convert1::<M32>(34) }
fn h_ring_convert_top() { match sx::choose(0, 1) { 0 => convert1::<M63>(64), _ => convert1::<P63>(64) } }
fn h_ring_convert2() { convert2::<D127>() }
fn h_ring_inverse() { match sx::choose(0, 1) { 0 => inverse::<M5>(4), _ => inverse::<M17>(16) } }
fn h_ring_int() { zint8(); zint16(); zint32(); zint64(); zint128(); sx::reach(1) }
fn h_ring_extend() { extend() }
}
