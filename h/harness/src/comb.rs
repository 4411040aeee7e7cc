//! Combinations, plane geometry and running statistics
use crate::harness;
use sunscreen_math::combination::*;
use sunscreen_math::geometry::*;
use sunscreen_math::stats::RunningMeanVariance;

/// t numbers below n, in order
fn any(n: usize, t: usize) -> Vec<usize> {
    let v: Vec<usize> = (0..t).map(|_| sx::range(0, n as u64 - 1) as usize).collect();
    for i in 1..t {
        sx::assume(v[i - 1] < v[i]);
    }
    v
}
fn before(a: &[usize], b: &[usize]) -> bool {
    a.iter().zip(b).rev().fold(false, |l, (x, y)| (x < y) | ((x == y) & l))
}
fn sized(max: u64) -> (usize, usize, Combinations) {
    let n = sx::choose(1, max) as usize;
    let t = sx::choose(0, n as u64) as usize;
    (n, t, Combinations::new(n, t).unwrap())
}
/// the row of Pascal's triangle
fn binomial(n: u128, k: u128) -> u128 {
    if k > n { 0 } else { (0..k).fold(1, |a, i| a * (n - i) / (i + 1)) }
}
/// indices of two combinations are ordered as they are, in range, and lead back to them
fn index(max: u64) {
    let (n, t, c) = sized(max);
    let (a, b) = (any(n, t), any(n, t));
    let (i, j) = (c.get_index(&a).unwrap(), c.get_index(&b).unwrap());
    sx::assert(c.number_combinations() as u128 == binomial(n as u128, t as u128), 1);
    sx::assert(i < c.number_combinations(), 2);
    sx::assert((i < j) == before(&a, &b), 3);
    let r = c.at_index(i).unwrap();
    sx::assert(r.len() == t, 4);
    for k in 0..t {
        sx::assert(r[k] == a[k], 5);
    }
    sx::reach(1);
}
fn iterate(max: u64) {
    let (n, t, c) = sized(max);
    let total = binomial(n as u128, t as u128) as usize;
    // any position of the sequence
    let p = sx::choose(0, 40) as usize;
    sx::assume(p < total);
    let mut it = c.clone();
    let mut last = None;
    for _ in 0..=p {
        last = it.next();
    }
    let v = last.unwrap();
    sx::assert(v.len() == t, 10);
    for k in 0..t {
        sx::assert(v[k] < n, 11);
        sx::assert(k == 0 || v[k - 1] < v[k], 12);
    }
    sx::assert(c.get_index(&v).unwrap() == p, 13);
    if p + 1 == total {
        sx::assert(it.next().is_none(), 14);
        sx::assert(it.next().is_none(), 15);
    }
    sx::reach(1);
}
fn bad() {
    let (n, t, c) = sized(4);
    let l = sx::choose(0, 5) as usize;
    let v: Vec<usize> = (0..l).map(|_| sx::u64() as usize).collect();
    let i = sx::u64() as usize;
    if l != t {
        sx::assert(c.get_index(&v) == Err(CombinationGetIndexError::IncorrectLength(t, l)), 20);
    } else {
        let max = v.iter().fold(0, |m, x| if *x > m { *x } else { m });
        sx::assume(max >= n);
        sx::assert(c.get_index(&v).is_err(), 21);
    }
    sx::assume(i >= c.number_combinations());
    sx::assert(c.at_index(i).is_none(), 22);
    let k = sx::range(1, 1000) as usize;
    sx::assert(Combinations::new(n, n.wrapping_add(k)).is_err(), 23);
    sx::assert(Combinations::new(0, k).is_err() & Combinations::new(0, 0).is_err(), 24);
    sx::reach(1);
}
/// binomial coefficients that fit in a word
fn count(k: usize, from: u64, to: u64) {
    let n = sx::choose(from, to) as usize;
    let k = if sx::choose(0, 1) == 0 { k } else { n - k };
    let e = binomial(n as u128, k.min(n - k) as u128);
    sx::assume(e <= u64::MAX as u128);
    sx::assert(Combinations::new(n, k).unwrap().number_combinations() as u128 == e, 30);
    sx::reach(1);
}
fn count_sym(k: usize) {
    let n = sx::range(2 * k as u64 + 1, 4000) as usize;
    let c = Combinations::new(n, k).unwrap().number_combinations();
    let e = match k {
        0 => 1,
        1 => n,
        2 => n * (n - 1) / 2,
        _ => n * (n - 1) * (n - 2) / 6,
    };
    sx::assert(c == e, 31);
    sx::reach(1);
}
fn insert() {
    let t = sx::choose(0, 4) as usize;
    let v: Vec<usize> = (0..t).map(|_| sx::range(0, 1 << 40) as usize).collect();
    for i in 1..t {
        sx::assume(v[i - 1] < v[i]);
    }
    let e = sx::range(0, 1 << 40) as usize;
    let (at, r) = insert_element_into_reduced_combination(e, &v);
    sx::assert(r.len() == t + 1, 40);
    sx::assert(r[at] == e, 41);
    for k in 0..t {
        sx::assert(r[k] < r[k + 1], 42);
    }
    for k in 0..=t {
        if k < at {
            sx::assert(r[k] == v[k], 43);
        } else if k > at {
            sx::assert(r[k] == v[k - 1] + 1, 44);
        }
    }
    sx::reach(1);
}
fn real() -> f64 { sx::dyadic(40, 0) }
fn plane() {
    let n = sx::choose(0, 3) as usize;
    // small normals with arbitrary bounds
    let hs: Vec<((f64, f64), f64)> = (0..n).map(|_| {
        let a = match sx::choose(0, 3) { 0 => (1.0, 0.0), 1 => (-1.0, 2.0), 2 => (0.5, -3.0), _ => (0.0, 0.0) };
        (a, real())
    }).collect();
    let (x, y) = (real(), real());
    let spaces: Vec<HalfSpace2D> = hs.iter().map(|(a, b)| HalfSpace2D::new(*a, *b)).collect();
    let p = Point2D::new(x, y);
    sx::assert((p.x() == x) & (p.y() == y), 50);
    let c = ConvexPolytope2D::new(&spaces);
    sx::assert(c.half_spaces().len() == n, 51);
    let out: Vec<bool> = hs.iter().map(|((a, b), c)| a * x + b * y > *c).collect();
    for i in 0..n {
        sx::assert(spaces[i].inside(p) == !out[i], 52);
        sx::assert(c.half_spaces()[i].inside(p) == !out[i], 53);
    }
    sx::assert(c.inside(p) == !out.iter().fold(false, |s, o| s | *o), 54);
    let v = c.violations(p).len();
    sx::assert(v == out.iter().map(|o| *o as usize).sum::<usize>(), 55);
    for h in c.violations(p) {
        sx::assert(!h.inside(p), 56);
    }
    sx::reach(1);
}
fn mean(max: u64) {
    let n = sx::choose(1, max) as usize;
    let v: Vec<f64> = (0..n).map(|_| real()).collect();
    let mut s = RunningMeanVariance::new();
    for x in &v {
        s.add_sample(*x);
    }
    let sum = v.iter().fold(0.0, |s, x| s + x);
    let d = s.mean() * n as f64 - sum;
    sx::assert((d <= 0.001) & (d >= -0.001), 60);
    sx::reach(1);
}
fn variance() {
    let n = sx::choose(1, 4) as usize;
    let v: Vec<f64> = (0..n).map(|_| sx::choose(0, 4) as f64).collect();
    let mut s = RunningMeanVariance::new();
    for x in &v {
        s.add_sample(*x);
    }
    // n^2 times the variance
    let (a, b) = v.iter().fold((0.0, 0.0), |(a, b), x| (a + x, b + x * x));
    let d = s.variance() * (n * n) as f64 - (b * n as f64 - a * a);
    sx::assert((d <= 0.001) & (d >= -0.001), 61);
    let e = s.std() * s.std() - s.variance();
    sx::assert((e <= 0.001) & (e >= -0.001), 62);
    sx::reach(1);
}
harness! {
fn h_comb_index() { index(5) }
fn h_comb_iter() { iterate(6) }
fn h_comb_bad() { bad() }
fn h_comb_count() { count(sx::choose(0, 8) as usize, 16, 70) }
fn h_comb_count_mid() { let h = sx::choose(28, 34); count(h as usize, 2 * h, 2 * h + 1) }
fn h_comb_count_sym() { count_sym(sx::choose(0, 3) as usize) }
fn h_comb_insert() { insert() }
fn h_geo_plane() { plane() }
fn h_stats_mean() { mean(5) }
fn h_stats_variance() { variance() }
}
