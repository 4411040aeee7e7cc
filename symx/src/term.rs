//! Hash-consed bit-vector term DAG with semantics-preserving simplification.
//! Arithmetic (+, -, *, << const) is kept as polynomials over Z/2^w so that
//! algebraic identities cancel before they ever reach the SMT solver.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Fma,
    Sqrt,
    Abs,
    Round,
    RoundEven,
    Floor,
    Ceil,
    Trunc,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpToSiSat,
    FpToUiSat,
    /// signed(arg0) * 2^(arg1 const, as i64): exact for |arg0| < 2^53
    Dyadic,
    CmpOeq,
    CmpOlt,
    CmpOle,
    CmpUno,
    Exp,
    Log,
    Sin,
    Cos,
    Pow,
    Exp2,
    MaxNum,
    MinNum,
    CopySign,
    FpTrunc,
    FpExt,
    /// formal value of a transform: (poly id const, index const, 0=re 1=im)
    Fft,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    /// sum of coef * product(atoms) + constant  (mod 2^w)
    Poly(Box<[(u128, Box<[T]>)]>, u128),
    /// opaque product, used when the expanded polynomial would be too large
    Mul(T, T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Not(T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Extract(T, u16),
    Concat(T, T),
    ZExt(T),
    SExt(T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    F(FOp, Box<[T]>),
    /// real polynomial over signed integer (or opaque real) atoms; coefficients are f64 bits
    FP(Box<[(Box<[T]>, u64)]>, u64),
}

#[derive(Clone, Copy)]
pub struct Meta {
    pub w: u16,
    pub zeros: u128,
    pub ones: u128,
    pub lo: u128,
    pub hi: u128,
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    /// false for engine-internal values (uninitialised memory, undef)
    pub input: bool,
    pub term: T,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<(u16, Node), T>,
    pub vars: Vec<VarInfo>,
    pub poly_limit: usize,
    pub reals: bool,
    /// masked value -> (polynomial it is the low part of, number of bits)
    low_map: HashMap<T, (T, u16)>,
    extracted: HashMap<(T, u16, u16), T>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
fn inv_odd(a: u128, w: u16) -> u128 {
    let mut x = 1u128;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x & mask(w)
}

/// value of a floating-point operation on constants
pub fn ffold(op: FOp, a: &[(u128, u16)], w: u16) -> Option<u128> {
    use FOp::*;
    let wa = a[0].1;
    let r64 = |v: f64| Some(v.to_bits() as u128);
    let r32 = |v: f32| Some(v.to_bits() as u128);
    match op {
        SiToFp => {
            let s = sext(a[0].0, wa);
            return if w == 32 { r32(s as f32) } else { r64(s as f64) };
        }
        UiToFp => {
            let s = a[0].0;
            return if w == 32 { r32(s as f32) } else { r64(s as f64) };
        }
        Dyadic => {
            let s = sext(a[0].0, wa) as f64;
            let e = sext(a[1].0, 64) as i32;
            return r64(s * (e as f64).exp2());
        }
        Fft => return None,
        _ => {}
    }
    let f = |i: usize| -> Option<f64> {
        let (v, wv) = *a.get(i)?;
        Some(match wv {
            64 => f64::from_bits(v as u64),
            32 => f32::from_bits(v as u32) as f64,
            _ => return None,
        })
    };
    let f32m = wa == 32;
    let x = f(0)?;
    let y = f(1).unwrap_or(0.0);
    let (xf, yf) = (x as f32, y as f32);
    macro_rules! arith {
        ($e32:expr, $e64:expr) => {{
            if f32m { r32($e32) } else { r64($e64) }
        }};
    }
    match op {
        Add => arith!(xf + yf, x + y),
        Sub => arith!(xf - yf, x - y),
        Mul => arith!(xf * yf, x * y),
        Div => arith!(xf / yf, x / y),
        Rem => arith!(xf % yf, x % y),
        Neg => arith!(-xf, -x),
        Fma => {
            let z = f(2)?;
            arith!(xf.mul_add(yf, z as f32), x.mul_add(y, z))
        }
        Sqrt => arith!(xf.sqrt(), x.sqrt()),
        Abs => arith!(xf.abs(), x.abs()),
        Round => arith!(xf.round(), x.round()),
        RoundEven => arith!(xf.round_ties_even(), x.round_ties_even()),
        Floor => arith!(xf.floor(), x.floor()),
        Ceil => arith!(xf.ceil(), x.ceil()),
        Trunc => arith!(xf.trunc(), x.trunc()),
        Exp => arith!(xf.exp(), x.exp()),
        Exp2 => arith!(xf.exp2(), x.exp2()),
        Log => arith!(xf.ln(), x.ln()),
        Sin => arith!(xf.sin(), x.sin()),
        Cos => arith!(xf.cos(), x.cos()),
        Pow => arith!(xf.powf(yf), x.powf(y)),
        MaxNum => arith!(xf.max(yf), x.max(y)),
        MinNum => arith!(xf.min(yf), x.min(y)),
        CopySign => arith!(xf.copysign(yf), x.copysign(y)),
        FpTrunc => r32(x as f32),
        FpExt => r64(x),
        FpToSi | FpToSiSat => {
            let v = x as i128;
            let lo = -(1i128 << (w - 1));
            let hi = (1i128 << (w - 1)) - 1;
            Some(v.clamp(lo, hi) as u128 & mask(w))
        }
        FpToUi | FpToUiSat => Some((x as u128).min(mask(w))),
        CmpOeq => Some((x == y) as u128),
        CmpOlt => Some((x < y) as u128),
        CmpOle => Some((x <= y) as u128),
        CmpUno => Some((x.is_nan() || y.is_nan()) as u128),
        _ => None,
    }
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            meta: vec![],
            map: HashMap::new(),
            vars: vec![],
            poly_limit: 600,
            reals: false,
            low_map: HashMap::new(), extracted: HashMap::new(),
        };
        // term 0 = false, term 1 = true
        t.c(0, 1);
        t.c(1, 1);
        t
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.meta[t as usize].w
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        if let Node::Const(c) = self.nodes[t as usize] {
            Some(c)
        } else {
            None
        }
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn hi(&self, t: T) -> u128 {
        self.meta[t as usize].hi
    }
    pub fn lo(&self, t: T) -> u128 {
        self.meta[t as usize].lo
    }
    pub fn tru(&self) -> T {
        1
    }
    pub fn fals(&self) -> T {
        0
    }
    pub fn c(&mut self, v: u128, w: u16) -> T {
        assert!(w <= 128, "constant wider than 128 bits");
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, name: String, w: u16, lo: u128, hi: u128, input: bool) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, lo, hi, input, term: 0 });
        let t = self.mk(Node::Var(id), w);
        self.vars[id as usize].term = t;
        t
    }
    pub fn fresh(&mut self, pfx: &str, w: u16) -> T {
        let n = self.vars.len();
        self.var(format!("{}!{}", pfx, n), w, 0, mask(w), false)
    }

    fn mk(&mut self, n: Node, w: u16) -> T {
        let key = (w, n);
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let m = self.compute_meta(&key.1, w);
        let id = self.nodes.len() as T;
        self.nodes.push(key.1.clone());
        self.meta.push(m);
        self.map.insert(key, id);
        if !matches!(self.nodes[id as usize], Node::Const(_)) && w <= 128 && m.lo == m.hi {
            // value is determined
            return self.c(m.lo, w);
        }
        id
    }

    fn compute_meta(&self, n: &Node, w: u16) -> Meta {
        let mk = mask(w);
        let mut zeros = 0u128;
        let mut ones = 0u128;
        let mut lo = 0u128;
        let mut hi = mk;
        let g = |t: &T| self.meta[*t as usize];
        match n {
            Node::Const(c) => {
                zeros = !c & mk;
                ones = *c;
                lo = *c;
                hi = *c;
            }
            Node::Var(i) => {
                let v = &self.vars[*i as usize];
                lo = v.lo;
                hi = v.hi;
            }
            Node::Poly(ts, k) => {
                // range
                let mut shi: Option<u128> = Some(*k);
                let mut slo: Option<u128> = Some(*k);
                let mut tz = if *k == 0 { w as u32 } else { k.trailing_zeros() };
                for (c, m) in ts.iter() {
                    let mut ph = Some(*c);
                    let mut pl = Some(*c);
                    let mut z = c.trailing_zeros();
                    for a in m.iter() {
                        let ma = g(a);
                        ph = ph.and_then(|x| x.checked_mul(ma.hi));
                        pl = pl.and_then(|x| x.checked_mul(ma.lo));
                        z += (ma.zeros.trailing_ones()).min(w as u32);
                    }
                    tz = tz.min(z);
                    shi = match (shi, ph) {
                        (Some(a), Some(b)) => a.checked_add(b),
                        _ => None,
                    };
                    slo = match (slo, pl) {
                        (Some(a), Some(b)) => a.checked_add(b),
                        _ => None,
                    };
                }
                if let (Some(h), Some(l)) = (shi, slo) {
                    if h <= mk {
                        lo = l;
                        hi = h;
                    }
                }
                if hi == mk {
                    // maybe negative coefficients: const - sum
                    // (k - sum c_i*x_i, with sum bounded by k)
                    let mut s = Some(0u128);
                    let mut smin = Some(0u128);
                    let mut allneg = true;
                    for (c, m) in ts.iter() {
                        let nc = c.wrapping_neg() & mk;
                        if nc >= (mk >> 1) {
                            allneg = false;
                            break;
                        }
                        let mut ph = Some(nc);
                        let mut pl = Some(nc);
                        for a in m.iter() {
                            ph = ph.and_then(|x| x.checked_mul(g(a).hi));
                            pl = pl.and_then(|x| x.checked_mul(g(a).lo));
                        }
                        s = match (s, ph) {
                            (Some(a), Some(b)) => a.checked_add(b),
                            _ => None,
                        };
                        smin = match (smin, pl) {
                            (Some(a), Some(b)) => a.checked_add(b),
                            _ => None,
                        };
                    }
                    if allneg {
                        if let (Some(s), Some(smin)) = (s, smin) {
                            if s <= *k {
                                lo = k - s;
                                hi = k - smin;
                            }
                        }
                    }
                    // single positive term minus a constant (x - k with x >= k)
                    if hi == mk && lo == 0 && ts.len() == 1 && ts[0].0 == 1 && ts[0].1.len() == 1 {
                        let nk = k.wrapping_neg() & mk;
                        let ma = g(&ts[0].1[0]);
                        if ma.lo >= nk {
                            lo = ma.lo - nk;
                            hi = ma.hi - nk;
                        }
                    }
                }
                if tz > 0 {
                    zeros |= mask(tz.min(w as u32) as u16);
                }
                if ts.len() == 1 && *k == 0 && ts[0].0.is_power_of_two() && ts[0].1.len() == 1 {
                    let sh = ts[0].0.trailing_zeros();
                    let ma = g(&ts[0].1[0]);
                    zeros |= ((ma.zeros << sh) | mask(sh as u16)) & mk;
                    ones |= (ma.ones << sh) & mk;
                }
            }
            Node::Mul(..) => {}
            Node::And(a, b) => {
                let (a, b) = (g(a), g(b));
                zeros = a.zeros | b.zeros;
                ones = a.ones & b.ones;
                hi = a.hi.min(b.hi);
            }
            Node::Or(a, b) => {
                let (a, b) = (g(a), g(b));
                zeros = a.zeros & b.zeros;
                ones = a.ones | b.ones;
                lo = a.lo.max(b.lo);
            }
            Node::Xor(a, b) => {
                let (a, b) = (g(a), g(b));
                zeros = (a.zeros & b.zeros) | (a.ones & b.ones);
                ones = (a.ones & b.zeros) | (a.zeros & b.ones);
            }
            Node::Not(a) => {
                let a = g(a);
                zeros = a.ones;
                ones = a.zeros;
                lo = !a.hi & mk;
                hi = !a.lo & mk;
            }
            Node::Lshr(a, s) => {
                let ma = g(a);
                let ms = g(s);
                hi = if ms.lo >= w as u128 { 0 } else { ma.hi >> ms.lo };
            }
            Node::UDiv(a, b) => {
                let (a, b) = (g(a), g(b));
                if b.lo > 0 {
                    hi = a.hi / b.lo;
                    if b.hi > 0 {
                        lo = a.lo / b.hi;
                    }
                }
            }
            Node::URem(a, b) => {
                let (a, b) = (g(a), g(b));
                if b.lo > 0 {
                    hi = a.hi.min(b.hi - 1);
                    if a.hi < b.lo {
                        lo = a.lo;
                    }
                } else {
                    hi = a.hi.max(0);
                }
            }
            Node::Extract(a, l) => {
                let ma = g(a);
                zeros = (ma.zeros >> l) & mk;
                ones = (ma.ones >> l) & mk;
                if ma.w <= 128 {
                    let h = ma.hi >> l;
                    if h <= mk {
                        hi = h;
                        lo = ma.lo >> l;
                    }
                }
            }
            Node::Concat(a, b) => {
                let (a, b) = (g(a), g(b));
                if w <= 128 {
                    zeros = (a.zeros << b.w) | b.zeros;
                    ones = (a.ones << b.w) | b.ones;
                    lo = (a.lo << b.w) | b.lo;
                    hi = (a.hi << b.w) | b.hi;
                }
            }
            Node::ZExt(a) => {
                let a = g(a);
                zeros = a.zeros | (mk & !mask(a.w));
                ones = a.ones;
                lo = a.lo;
                hi = a.hi;
            }
            Node::SExt(a) => {
                let a = g(a);
                let sb = 1u128 << (a.w - 1);
                if a.zeros & sb != 0 || a.hi < sb {
                    zeros = a.zeros | (mk & !mask(a.w));
                    ones = a.ones;
                    lo = a.lo;
                    hi = a.hi;
                } else {
                    zeros = a.zeros & mask(a.w - 1);
                    ones = a.ones & mask(a.w - 1);
                    if a.lo >= sb {
                        lo = a.lo | (mk & !mask(a.w));
                        hi = a.hi | (mk & !mask(a.w));
                    }
                }
            }
            Node::Ite(_, a, b) => {
                let (a, b) = (g(a), g(b));
                zeros = a.zeros & b.zeros;
                ones = a.ones & b.ones;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
            _ => {}
        }
        // combine ranges and bits
        lo = lo.max(ones);
        hi = hi.min(mk & !zeros);
        if hi < mk && hi < lo {
            // contradictory (dead) – keep safe
            lo = 0;
            hi = mk;
        }
        // leading zeros from hi
        if w <= 128 && hi < mk {
            let lz = hi.leading_zeros();
            if lz > 0 {
                let keep = if lz == 128 { 0 } else { u128::MAX >> lz };
                zeros |= mk & !keep;
            }
        }
        Meta { w, zeros, ones, lo, hi }
    }

    // ---------- polynomials ----------
    fn as_poly(&mut self, t: T) -> (Vec<(u128, Box<[T]>)>, u128) {
        match self.n(t) {
            Node::Const(c) => (vec![], *c),
            Node::Poly(ts, k) => (ts.to_vec(), *k),
            Node::ZExt(x) => {
                // a single shifted bit
                if let Node::Concat(h, l) = *self.n(*x) {
                    if self.w(h) == 1 && self.cv(l) == Some(0) {
                        let (w, k) = (self.w(t), self.w(l));
                        let b = self.zext(h, w);
                        return (vec![(1 << k, vec![b].into_boxed_slice())], 0);
                    }
                }
                (vec![(1, vec![t].into_boxed_slice())], 0)
            }
            _ => (vec![(1, vec![t].into_boxed_slice())], 0),
        }
    }
    fn from_poly(&mut self, mut ts: Vec<(u128, Box<[T]>)>, k: u128, w: u16) -> T {
        let mk = mask(w);
        ts.sort_by(|a, b| a.1.cmp(&b.1));
        let mut out: Vec<(u128, Box<[T]>)> = Vec::with_capacity(ts.len());
        for (c, m) in ts {
            if let Some(l) = out.last_mut() {
                if l.1 == m {
                    l.0 = l.0.wrapping_add(c) & mk;
                    continue;
                }
            }
            out.push((c & mk, m));
        }
        out.retain(|x| x.0 != 0);
        let k = k & mk;
        if out.is_empty() {
            return self.c(k, w);
        }
        if out.len() == 1 && k == 0 && out[0].0 == 1 && out[0].1.len() == 1 {
            return out[0].1[0];
        }
        if w == 1 {
            // arithmetic mod 2 -> xor/and
            let mut r = self.c(k, 1);
            for (_, m) in out {
                let mut p = self.tru();
                for a in m.iter() {
                    p = self.and(p, *a);
                }
                r = self.xor(r, p);
            }
            return r;
        }
        self.mk(Node::Poly(out.into_boxed_slice(), k), w)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w > 128 {
            panic!("arithmetic wider than 128 bits");
        }
        if let Some(0) = self.cv(a) {
            return b;
        }
        if let Some(0) = self.cv(b) {
            return a;
        }
        let (mut p, k1) = self.as_poly(a);
        let (q, k2) = self.as_poly(b);
        p.extend(q);
        self.from_poly(p, k1.wrapping_add(k2), w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let m1 = self.c(mask(w), w);
        self.mul(a, m1)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.c(0, w);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    fn is_bit(&self, t: T) -> bool {
        match self.n(t) {
            Node::ZExt(x) => self.w(*x) == 1,
            _ => false,
        }
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w > 128 {
            panic!("arithmetic wider than 128 bits");
        }
        let (p, k1) = self.as_poly(a);
        let (q, k2) = self.as_poly(b);
        let np = p.len() + (k1 != 0) as usize;
        let nq = q.len() + (k2 != 0) as usize;
        if np == 0 || nq == 0 {
            return self.c(0, w);
        }
        if np > 1 && nq > 1 && np * nq > self.poly_limit {
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.mk(Node::Mul(a, b), w);
        }
        let mut out = Vec::with_capacity(np * nq);
        for (c1, m1) in p.iter() {
            for (c2, m2) in q.iter() {
                let mut m: Vec<T> = m1.iter().chain(m2.iter()).cloned().collect();
                m.sort();
                // idempotent bits
                let mut i = 1;
                while i < m.len() {
                    if m[i] == m[i - 1] && self.is_bit(m[i]) {
                        m.remove(i);
                    } else {
                        i += 1;
                    }
                }
                out.push((c1.wrapping_mul(*c2), m.into_boxed_slice()));
            }
            if k2 != 0 {
                out.push((c1.wrapping_mul(k2), m1.clone()));
            }
        }
        if k1 != 0 {
            for (c2, m2) in q.iter() {
                out.push((c2.wrapping_mul(k1), m2.clone()));
            }
        }
        self.from_poly(out, k1.wrapping_mul(k2), w)
    }

    // ---------- bitwise ----------
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match *self.n(a) {
            Node::Const(c) => return self.c(!c, w),
            Node::Not(x) => return x,
            _ => {}
        }
        if w > 1 {
            // ~a = -1 - a keeps arithmetic structure when a is a polynomial
            if let Node::Poly(..) = self.n(a) {
                let m1 = self.c(mask(w), w);
                return self.sub(m1, a);
            }
        }
        self.mk(Node::Not(a), w)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                if let Some(c) = self.as_mask(p) {
                    let z = self.c(0, w);
                    return self.ite(c, q, z);
                }
            }
        }
        if let Some(c) = self.cv(b) {
            if let Some(d) = self.cv(a) {
                return self.c(c & d, w);
            }
            if c == 0 {
                return b;
            }
            let za = self.meta[a as usize].zeros;
            if (!c & mask(w)) & !za == 0 {
                return a; // mask only clears known zeros
            }
            // contiguous low mask (ignoring known zero bits)
            if (c & (c.wrapping_add(1))) == 0 {
                let k = c.count_ones() as u16;
                let e = self.extract(a, 0, k);
                let r = self.zext(e, w);
                if w <= 128 && r != a && matches!(self.n(a), Node::Poly(..)) && self.cv(r).is_none() {
                    self.low_map.entry(r).or_insert((a, k));
                }
                return r;
            }
            let tz = c.trailing_zeros() as u16;
            let top = c >> tz;
            if (top & top.wrapping_add(1)) == 0 {
                let k = top.count_ones() as u16;
                let e = self.extract(a, tz, k);
                let e = self.zext(e, w - tz);
                let z = self.c(0, tz);
                return self.concat(e, z);
            }
            if let Node::And(x, y) = *self.n(a) {
                if let Some(d) = self.cv(y) {
                    let k = self.c(c & d, w);
                    return self.and(x, k);
                }
            }
            if let Node::Ite(q, x, y) = *self.n(a) {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let x2 = self.and(x, b);
                    let y2 = self.and(y, b);
                    return self.ite(q, x2, y2);
                }
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Not(x), _) if x == b => return self.c(0, w),
            (_, Node::Not(x)) if x == a => return self.c(0, w),
            (Node::And(x, y), _) if x == b || y == b => return a,
            (_, Node::And(x, y)) if x == a || y == a => return b,
            (Node::Or(x, y), _) if x == b || y == b => return b,
            (_, Node::Or(x, y)) if x == a || y == a => return a,
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => {
                let r = self.and(x, y);
                return self.zext(r, w);
            }
            (Node::SExt(x), Node::SExt(y)) if self.w(x) == 1 && self.w(y) == 1 => {
                let r = self.and(x, y);
                return self.sext(r, w);
            }
            // sext(bit) & y  ==  ite(bit, y, 0)
            (Node::SExt(x), _) if self.w(x) == 1 => {
                let z = self.c(0, w);
                return self.ite(x, b, z);
            }
            (_, Node::SExt(x)) if self.w(x) == 1 => {
                let z = self.c(0, w);
                return self.ite(x, a, z);
            }
            _ => {}
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Node::And(a, b), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(b) {
            if let Some(d) = self.cv(a) {
                return self.c(c | d, w);
            }
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
            if c & !self.meta[a as usize].ones == 0 {
                return a;
            }
        }
        if w > 1 && w <= 128 {
            let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
            if (!ma.zeros & !mb.zeros) & mask(w) == 0 {
                // disjoint: try a clean split into a concatenation
                for (x, y, mx, my) in [(a, b, ma, mb), (b, a, mb, ma)] {
                    let tz = (mx.zeros.trailing_ones() as u16).min(w);
                    let top = 128 - (!my.zeros & mask(w)).leading_zeros() as u16;
                    if top <= tz && tz < w && tz > 0 {
                        let h = self.extract(x, tz, w - tz);
                        let l = self.extract(y, 0, tz);
                        return self.concat(h, l);
                    }
                }
                return self.add(a, b);
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Not(x), _) if x == b => return self.c(mask(w), w),
            (_, Node::Not(x)) if x == a => return self.c(mask(w), w),
            (Node::Or(x, y), _) if x == b || y == b => return a,
            (_, Node::Or(x, y)) if x == a || y == a => return b,
            (Node::And(x, y), _) if x == b || y == b => return b,
            (_, Node::And(x, y)) if x == a || y == a => return a,
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => {
                let r = self.or(x, y);
                return self.zext(r, w);
            }
            _ => {}
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Node::Or(a, b), w)
    }
    fn cancels(&self, p: T, x: T) -> bool {
        p == x || matches!(*self.n(x), Node::Xor(u, v) if u == p || v == p)
    }
    /// the bit b if the word is 0 - b (all ones or zero)
    fn as_mask(&self, a: T) -> Option<T> {
        let w = self.w(a);
        match self.n(a) {
            Node::SExt(x) if self.w(*x) == 1 => Some(*x),
            Node::Poly(ts, 0) if ts.len() == 1 && ts[0].0 == mask(w) && ts[0].1.len() == 1 => match *self.n(ts[0].1[0]) {
                Node::ZExt(x) if self.w(x) == 1 => Some(x),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(b) {
            if let Some(d) = self.cv(a) {
                return self.c(c ^ d, w);
            }
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return self.not(a);
            }
            if let Node::Xor(x, y) = *self.n(a) {
                if let Some(d) = self.cv(y) {
                    let k = self.c(c ^ d, w);
                    return self.xor(x, k);
                }
            }
            if let Node::ZExt(x) = *self.n(a) {
                let wx = self.w(x);
                if c <= mask(wx) {
                    let k = self.c(c, wx);
                    let r = self.xor(x, k);
                    return self.zext(r, w);
                }
            }
        }
        // a selection spelled with masks: a ^ (if c then a ^ b else 0)
        for (p, q) in [(a, b), (b, a)] {
            if let Node::Ite(c, x, y) = *self.n(q) {
                if self.cv(y) == Some(0) && self.cancels(p, x) {
                    let t = self.xor(p, x);
                    return self.ite(c, t, p);
                }
                if self.cv(x) == Some(0) && self.cancels(p, y) {
                    let e = self.xor(p, y);
                    return self.ite(c, p, e);
                }
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Not(x), Node::Not(y)) => return self.xor(x, y),
            (Node::Not(x), _) => {
                let r = self.xor(x, b);
                return self.not(r);
            }
            (_, Node::Not(y)) => {
                let r = self.xor(a, y);
                return self.not(r);
            }
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => {
                let r = self.xor(x, y);
                return self.zext(r, w);
            }
            (Node::Xor(x, y), _) if x == b => return y,
            (Node::Xor(x, y), _) if y == b => return x,
            (_, Node::Xor(x, y)) if x == a => return y,
            (_, Node::Xor(x, y)) if y == a => return x,
            _ => {}
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Node::Xor(a, b), w)
    }

    // ---------- shifts ----------
    pub fn shl(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(s) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            if w > 128 {
                let e = self.extract(a, 0, w - k as u16);
                let z = self.c(0, k as u16);
                return self.concat(e, z);
            }
            let m = self.c(1u128 << k, w);
            return self.mul(a, m);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Node::Shl(a, s), w)
    }
    pub fn lshr(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(s) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let e = self.extract(a, k as u16, w - k as u16);
            return self.zext(e, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Node::Lshr(a, s), w)
    }
    pub fn ashr(&mut self, a: T, s: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(s) {
            if k == 0 {
                return a;
            }
            let k = k.min(w as u128 - 1) as u16;
            let e = self.extract(a, k, w - k);
            return self.sext(e, w);
        }
        if self.meta[a as usize].zeros >> (w - 1) & 1 == 1 {
            return self.lshr(a, s);
        }
        self.mk(Node::Ashr(a, s), w)
    }

    // ---------- structure ----------
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if wa > w {
            panic!("zext narrows");
        }
        match *self.n(a) {
            Node::Const(c) if w <= 128 => return self.c(c, w),
            Node::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match *self.n(a) {
            Node::Const(c) if w <= 128 => return self.c(sext(c, wa) as u128, w),
            Node::SExt(x) => return self.sext(x, w),
            Node::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        if self.meta[a as usize].zeros >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.mk(Node::SExt(a), w)
    }
    pub fn trunc(&mut self, a: T, w: u16) -> T {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let wa = self.w(a);
        if lo == 0 && wa == w {
            return a;
        }
        assert!(lo + w <= wa, "extract out of range");
        if wa <= 128 {
            let m = self.meta[a as usize];
            let known = m.zeros | m.ones;
            let field = mask(w) << lo;
            if known & field == field {
                return self.c(m.ones >> lo, w);
            }
        }
        if let Some(t) = self.extracted.get(&(a, lo, w)) {
            return *t;
        }
        let t = self.extract_of(a, lo, w);
        self.extracted.insert((a, lo, w), t);
        t
    }
    fn extract_of(&mut self, a: T, lo: u16, w: u16) -> T {
        let wa = self.w(a);
        match self.n(a).clone() {
            Node::Const(c) => return self.c(c >> lo, w),
            Node::Extract(x, l) => return self.extract(x, l + lo, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                let hh = self.extract(h, 0, lo + w - wl);
                let ll = self.extract(l, lo, wl - lo);
                return self.concat(hh, ll);
            }
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.c(0, w);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let e = self.extract(x, lo, wx - lo);
                return self.zext(e, w);
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo < wx {
                    let e = self.extract(x, lo, wx - lo);
                    return self.sext(e, w);
                }
                let e = self.extract(x, wx - 1, 1);
                return self.sext(e, w);
            }
            Node::Ite(c, x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.ite(c, x2, y2);
            }
            Node::And(x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.and(x2, y2);
            }
            Node::Or(x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.or(x2, y2);
            }
            Node::Xor(x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.xor(x2, y2);
            }
            Node::Not(x) => {
                let x2 = self.extract(x, lo, w);
                return self.not(x2);
            }
            Node::Mul(x, y) if lo == 0 => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.mul(x2, y2);
            }
            Node::Poly(ts, k) => {
                if lo == 0 {
                    // reduction mod 2^w commutes with ring operations
                    let mut out = Vec::new();
                    let mut r = self.c(k, w);
                    for (c, m) in ts.iter() {
                        let mut p = self.c(*c, w);
                        if self.cv(p) == Some(0) {
                            continue;
                        }
                        for a in m.iter() {
                            let e = self.extract(*a, 0, w);
                            p = self.mul(p, e);
                        }
                        out.push(p);
                    }
                    for p in out {
                        r = self.add(r, p);
                    }
                    return r;
                }
                // common power of two: P = 2^s * Q
                {
                    let mut s = if k == 0 { 127 } else { k.trailing_zeros() };
                    for (c, _) in ts.iter() {
                        s = s.min(c.trailing_zeros());
                    }
                    let s = (s as u16).min(lo);
                    if s > 0 && lo + w <= wa {
                        let nw = wa - s;
                        let mut r = self.c(k >> s, nw);
                        for (c, m) in ts.iter() {
                            let mut p = self.c(c >> s, nw);
                            for a in m.iter() {
                                let e = self.extract(*a, 0, nw);
                                p = self.mul(p, e);
                            }
                            r = self.add(r, p);
                        }
                        return self.extract(r, lo - s, w);
                    }
                }
                // P = 2^lo * Q + R with 0 <= R < 2^lo: the low part does not matter
                {
                    let mut q = vec![];
                    let mut r = vec![];
                    for (c, m) in ts.iter() {
                        if c.trailing_zeros() >= lo as u32 {
                            q.push((*c, m.clone()));
                        } else {
                            r.push((*c, m.clone()));
                        }
                    }
                    let kr = k & mask(lo);
                    if !q.is_empty() && !(r.is_empty() && kr == 0) {
                        let rt = self.from_poly(r, kr, wa);
                        if self.hi(rt) < (1u128 << lo) {
                            let qt = self.from_poly(q, k & !mask(lo), wa);
                            return self.extract(qt, lo, w);
                        }
                    }
                }
                // single 2^s * x
                if ts.len() == 1 && k == 0 && ts[0].0.is_power_of_two() && ts[0].1.len() == 1 {
                    let s = ts[0].0.trailing_zeros() as u16;
                    let x = ts[0].1[0];
                    if lo >= s {
                        return self.extract(x, lo - s, w);
                    }
                    if lo + w <= s {
                        return self.c(0, w);
                    }
                    let h = self.extract(x, 0, lo + w - s);
                    let z = self.c(0, s - lo);
                    return self.concat(h, z);
                }
                if wa > lo + w {
                    // drop the bits above the field
                    let t = self.extract(a, 0, lo + w);
                    return self.extract(t, lo, w);
                }
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        if wh == 0 {
            return l;
        }
        if wl == 0 {
            return h;
        }
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            if w <= 128 {
                return self.c((a << wl) | b, w);
            }
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        match (self.n(h).clone(), self.n(l).clone()) {
            (Node::Extract(x, a), Node::Extract(y, b)) if x == y && b + wl == a => {
                return self.extract(x, b, w)
            }
            (Node::Extract(x, a), _) if x == l && a == wl => return self.extract(x, 0, w),
            (Node::ZExt(x), _) => {
                let r = self.concat(x, l);
                return self.zext(r, w);
            }
            // right-associate
            (Node::Concat(a, b), _) => {
                let r = self.concat(b, l);
                return self.concat(a, r);
            }
            (Node::Extract(x, a), Node::Concat(y, z)) => {
                if let Node::Extract(x2, b) = *self.n(y) {
                    if x2 == x && b + self.w(y) == a {
                        let e = self.extract(x, b, wh + self.w(y));
                        return self.concat(e, z);
                    }
                }
            }
            _ => {}
        }
        // concat(x[..], 0) of a truncation is a left shift: keep concat form
        self.mk(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let mut a = a;
        let mut b = b;
        if let Node::Ite(c2, x, _) = *self.n(a) {
            if c2 == c {
                a = x;
            }
        }
        if let Node::Ite(c2, _, y) = *self.n(b) {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        } else if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y == 0 && x.is_power_of_two() {
                // bit placed at position k
                let z = self.zext(c, w);
                let k = self.c(x, w);
                return self.mul(z, k);
            }
            if x == 0 && y.is_power_of_two() {
                let n = self.not(c);
                let z = self.zext(n, w);
                let k = self.c(y, w);
                return self.mul(z, k);
            }
            if y == 0 && x == mask(w) {
                return self.sext(c, w);
            }
            if x == 0 && y == mask(w) {
                let n = self.not(c);
                return self.sext(n, w);
            }
        } else if let Node::ZExt(x) = *self.n(a) {
            if let Node::ZExt(y) = *self.n(b) {
                if self.w(x) == self.w(y) {
                    let r = self.ite(c, x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    // ---------- comparisons ----------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq width");
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        if w <= 128 {
            if ma.hi < mb.lo || mb.hi < ma.lo {
                return self.fals();
            }
            if (ma.ones & mb.zeros) != 0 || (ma.zeros & mb.ones) != 0 {
                return self.fals();
            }
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(b) {
            match self.n(a).clone() {
                Node::ZExt(x) => {
                    let wx = self.w(x);
                    if c > mask(wx) {
                        return self.fals();
                    }
                    let k = self.c(c, wx);
                    return self.eq(x, k);
                }
                Node::SExt(x) => {
                    let wx = self.w(x);
                    let k = self.c(c, wx);
                    let back = self.sext(k, w);
                    if self.cv(back) != Some(c) {
                        return self.fals();
                    }
                    return self.eq(x, k);
                }
                Node::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let kh = self.c(c >> wl, wh);
                    let kl = self.c(c, wl);
                    let x = self.eq(h, kh);
                    let y = self.eq(l, kl);
                    return self.and(x, y);
                }
                Node::Not(x) => {
                    let k = self.c(!c, w);
                    return self.eq(x, k);
                }
                Node::Ite(q, x, y) => {
                    if self.cv(x).is_some() || self.cv(y).is_some() {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(y, b);
                        return self.ite(q, e1, e2);
                    }
                }
                _ => {}
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (Node::SExt(x), Node::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (Node::Concat(h1, l1), Node::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                let x = self.eq(h1, h2);
                let y = self.eq(l1, l2);
                return self.and(x, y);
            }
            (Node::Ite(c1, x1, y1), Node::Ite(c2, x2, y2)) if c1 == c2 => {
                let e1 = self.eq(x1, x2);
                let e2 = self.eq(y1, y2);
                return self.ite(c1, e1, e2);
            }
            _ => {}
        }
        let pa = matches!(self.n(a), Node::Poly(..));
        let pb = matches!(self.n(b), Node::Poly(..));
        if pa || pb {
            let d = self.sub(a, b);
            if let Some(c) = self.cv(d) {
                return if c == 0 { self.tru() } else { self.fals() };
            }
            if let Node::Poly(ts, k) = self.n(d).clone() {
                if ts.len() == 1 && ts[0].0 & 1 == 1 && ts[0].1.len() == 1 {
                    // c*x + k == 0  =>  x == -k * c^-1
                    let i = inv_odd(ts[0].0, w);
                    let v = k.wrapping_neg().wrapping_mul(i) & mask(w);
                    let kv = self.c(v, w);
                    return self.eq(ts[0].1[0], kv);
                }
                // canonical: nonconst part == const, sign-normalised
                let kk = self.c(k.wrapping_neg(), w);
                let mut lhs = self.from_poly(ts.to_vec(), 0, w);
                let mut rhs = kk;
                let nl = self.neg(lhs);
                if nl < lhs {
                    lhs = nl;
                    rhs = self.neg(rhs);
                }
                if ts.len() == 2 && ts.iter().all(|t| t.1.len() == 1) && k == 0 {
                    // x - y == 0
                    if ts[0].0 == 1 && ts[1].0 == mask(w) || ts[1].0 == 1 && ts[0].0 == mask(w) {
                        let (x, y) = (ts[0].1[0], ts[1].1[0]);
                        if !(x == a && y == b || x == b && y == a) {
                            return self.eq(x, y);
                        }
                    }
                }
                return self.mk(Node::Eq(lhs, rhs), 1);
            }
            // the difference collapsed to a plain atom
            let z = self.c(0, w);
            return self.eq(d, z);
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Node::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fals();
        }
        let w = self.w(a);
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        if w <= 128 {
            if ma.hi < mb.lo {
                return self.tru();
            }
            if ma.lo >= mb.hi {
                return self.fals();
            }
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(c) = self.cv(b) {
            if c == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if c.is_power_of_two() {
                // high part zero
                let k = c.trailing_zeros() as u16;
                let e = self.extract(a, k, w - k);
                let z = self.c(0, w - k);
                return self.eq(e, z);
            }
        }
        if let Some(c) = self.cv(a) {
            if c == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if c.wrapping_add(1).is_power_of_two() {
                let k = (c + 1).trailing_zeros() as u16;
                let e = self.extract(b, k, w - k);
                let z = self.c(0, w - k);
                let q = self.eq(e, z);
                return self.not(q);
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (Node::ZExt(x), Node::Const(c)) => {
                let wx = self.w(x);
                if c <= mask(wx) {
                    let k = self.c(c, wx);
                    return self.ult(x, k);
                }
                return self.tru();
            }
            (Node::Const(c), Node::ZExt(x)) => {
                let wx = self.w(x);
                if c <= mask(wx) {
                    let k = self.c(c, wx);
                    return self.ult(k, x);
                }
                return self.fals();
            }
            (Node::Ite(c, x, y), Node::Const(_)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fals();
        }
        let w = self.w(a);
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        let sb = 1u128 << (w - 1);
        let sign = |m: &Meta| -> Option<bool> {
            if m.zeros & sb != 0 {
                Some(false)
            } else if m.ones & sb != 0 {
                Some(true)
            } else {
                None
            }
        };
        match (sign(&ma), sign(&mb)) {
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            (Some(true), Some(false)) => return self.tru(),
            (Some(false), Some(true)) => return self.fals(),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if sext(x, w) < sext(y, w) { self.tru() } else { self.fals() };
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::SExt(x), Node::SExt(y)) if self.w(x) == self.w(y) && self.w(x) > 1 => {
                return self.slt(x, y)
            }
            _ => {}
        }
        self.mk(Node::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }

    // ---------- division ----------
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cv(b) {
            if let Some(n) = self.cv(a) {
                if d != 0 {
                    return self.c(n / d, w);
                }
            }
            if d == 1 {
                return a;
            }
            if d.is_power_of_two() {
                let k = self.c(d.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
        }
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        if mb.lo > 0 && ma.hi < mb.lo {
            return self.c(0, w);
        }
        // narrow when both operands are small
        let top = 128 - (ma.hi | mb.hi).leading_zeros() as u16;
        if top < w && top > 0 && mb.lo > 0 {
            let x = self.extract(a, 0, top);
            let y = self.extract(b, 0, top);
            let r = self.mk(Node::UDiv(x, y), top);
            return self.zext(r, w);
        }
        self.mk(Node::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cv(b) {
            if let Some(n) = self.cv(a) {
                if d != 0 {
                    return self.c(n % d, w);
                }
            }
            if d == 1 {
                return self.c(0, w);
            }
            if d.is_power_of_two() {
                let k = self.c(d - 1, w);
                return self.and(a, k);
            }
        }
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        if mb.lo > 0 && ma.hi < mb.lo {
            return a;
        }
        let top = 128 - (ma.hi | mb.hi).leading_zeros() as u16;
        if top < w && top > 0 && mb.lo > 0 {
            let x = self.extract(a, 0, top);
            let y = self.extract(b, 0, top);
            let r = self.mk(Node::URem(x, y), top);
            return self.zext(r, w);
        }
        self.mk(Node::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_div(sext(y, w)) as u128, w);
            }
        }
        let s = |m: Meta| m.zeros >> (w - 1) & 1 == 1;
        if s(self.meta[a as usize]) && s(self.meta[b as usize]) {
            return self.udiv(a, b);
        }
        self.mk(Node::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext(x, w).wrapping_rem(sext(y, w)) as u128, w);
            }
        }
        let s = |m: Meta| m.zeros >> (w - 1) & 1 == 1;
        if s(self.meta[a as usize]) && s(self.meta[b as usize]) {
            return self.urem(a, b);
        }
        self.mk(Node::SRem(a, b), w)
    }

    // ---------- floats (f64 / f32 as bit patterns) ----------
    fn fconst(&self, t: T) -> Option<f64> {
        let v = self.cv(t)?;
        Some(match self.w(t) {
            64 => f64::from_bits(v as u64),
            32 => f32::from_bits(v as u32) as f64,
            _ => return None,
        })
    }
    pub fn fop(&mut self, op: FOp, args: &[T], w: u16) -> T {
        use FOp::*;
        if args.iter().all(|a| self.cv(*a).is_some()) {
            let v: Vec<(u128, u16)> = args.iter().map(|a| (self.cv(*a).unwrap(), self.w(*a))).collect();
            if let Some(r) = ffold(op, &v, w) {
                return self.c(r, w);
            }
        }
        if self.reals {
            if let Some(r) = self.rop(op, args, w) {
                return r;
            }
            return self.mk(Node::F(op, args.to_vec().into_boxed_slice()), w);
        }
        // dyadic rationals: signed integer times a power of two, exact below 2^53
        let small = |s: &Self, t: T| -> bool {
            // |signed t| <= 2^53
            let w = s.w(t);
            let m = s.meta[t as usize];
            if m.hi <= 1 << 53 {
                return true;
            }
            match s.n(t) {
                Node::SExt(x) => s.w(*x) <= 54,
                _ => w <= 54,
            }
        };
        if w == 64 {
            match op {
                SiToFp if small(self, args[0]) => {
                    let x = self.sext(args[0], 64);
                    let z = self.c(0, 64);
                    return self.mk(Node::F(Dyadic, vec![x, z].into_boxed_slice()), 64);
                }
                UiToFp if self.hi(args[0]) <= 1 << 53 => {
                    let x = self.zext(args[0], 64);
                    let z = self.c(0, 64);
                    return self.mk(Node::F(Dyadic, vec![x, z].into_boxed_slice()), 64);
                }
                Add => {
                    for (p, q) in [(args[0], args[1]), (args[1], args[0])] {
                        if let (Node::F(Dyadic, _), Some(c)) = (self.n(p), self.fconst(q)) {
                            if c == 0.0 {
                                return p;
                            }
                        }
                    }
                }
                Mul => {
                    for (p, q) in [(args[0], args[1]), (args[1], args[0])] {
                        if let (Node::F(Dyadic, a), Some(c)) = (self.n(p).clone(), self.fconst(q)) {
                            let l = c.log2();
                            if c > 0.0 && l.fract() == 0.0 && (l.exp2() == c) {
                                let e = sext(self.cv(a[1]).unwrap(), 64) as i64 + l as i64;
                                let e = self.c(e as u128, 64);
                                return self.mk(Node::F(Dyadic, vec![a[0], e].into_boxed_slice()), 64);
                            }
                        }
                    }
                }
                Neg => {
                    if let Node::F(Dyadic, a) = self.n(args[0]).clone() {
                        let x = self.neg(a[0]);
                        return self.mk(Node::F(Dyadic, vec![x, a[1]].into_boxed_slice()), 64);
                    }
                }
                Round | RoundEven | Floor | Ceil | Trunc => {
                    if let Node::F(Dyadic, a) = self.n(args[0]).clone() {
                        if sext(self.cv(a[1]).unwrap(), 64) >= 0 {
                            return args[0];
                        }
                    }
                }
                FpToSi | FpToSiSat => {
                    if let Node::F(Dyadic, a) = self.n(args[0]).clone() {
                        if sext(self.cv(a[1]).unwrap(), 64) == 0 {
                            return a[0];
                        }
                    }
                }
                _ => {}
            }
        }
        self.mk(Node::F(op, args.to_vec().into_boxed_slice()), w)
    }

    // ---------- floats as reals ----------
    /// opaque real atoms are 64-bit float terms; integer atoms are bit vectors read as signed
    fn is_real_atom(&self, t: T) -> bool {
        match self.n(t) {
            Node::F(op, _) => !matches!(op, FOp::FpToSi | FOp::FpToUi | FOp::FpToSiSat | FOp::FpToUiSat),
            Node::Ite(_, a, b) => self.is_real_atom(*a) || self.is_real_atom(*b),
            Node::FP(..) => true,
            _ => false,
        }
    }
    fn atom_val(&self, t: T, v: u128) -> f64 {
        if self.is_real_atom(t) {
            f64::from_bits(v as u64)
        } else {
            sext(v, self.w(t)) as f64
        }
    }
    fn as_fp(&self, t: T) -> Option<(Vec<(Box<[T]>, f64)>, f64)> {
        if self.w(t) != 64 {
            return None;
        }
        match self.n(t) {
            Node::Const(c) => Some((vec![], f64::from_bits(*c as u64))),
            Node::FP(ts, k) => Some((ts.iter().map(|(m, c)| (m.clone(), f64::from_bits(*c))).collect(), f64::from_bits(*k))),
            _ if self.is_real_atom(t) => Some((vec![(vec![t].into_boxed_slice(), 1.0)], 0.0)),
            _ => None,
        }
    }
    fn from_fp(&mut self, mut ts: Vec<(Box<[T]>, f64)>, k: f64) -> T {
        ts.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<(Box<[T]>, f64)> = Vec::with_capacity(ts.len());
        for (m, c) in ts {
            if let Some(l) = out.last_mut() {
                if l.0 == m {
                    l.1 += c;
                    continue;
                }
            }
            out.push((m, c));
        }
        out.retain(|x| x.1 != 0.0);
        let k = if k == 0.0 { 0.0 } else { k };
        if out.is_empty() {
            return self.c(k.to_bits() as u128, 64);
        }
        if out.len() == 1 && k == 0.0 && out[0].1 == 1.0 && out[0].0.len() == 1 && self.is_real_atom(out[0].0[0]) {
            return out[0].0[0];
        }
        let b: Vec<(Box<[T]>, u64)> = out.into_iter().map(|(m, c)| (m, c.to_bits())).collect();
        self.mk(Node::FP(b.into_boxed_slice(), k.to_bits()), 64)
    }
    /// coefficients within 1e-6 of an integer become that integer; None if some are not
    fn fp_clean(&mut self, t: T) -> Option<T> {
        let (mut ts, k) = self.as_fp(t)?;
        let near = |c: f64| -> Option<f64> {
            let r = c.round();
            if (c - r).abs() <= 1e-6 * r.abs().max(1.0).min(1e3) || c.abs() >= 4503599627370496.0 { Some(r) } else { None }
        };
        for x in ts.iter_mut() {
            for a in x.0.iter() {
                if self.is_real_atom(*a) && !self.int_real(*a) {
                    return None;
                }
            }
            x.1 = near(x.1)?;
        }
        if !ts.is_empty() && ts.iter().all(|x| x.1 == 0.0) {
            // everything is small: not a cancellation artefact
            return None;
        }
        let k = near(k)?;
        Some(self.from_fp(ts, k))
    }
    /// real atom known to be integer valued
    fn int_real(&self, t: T) -> bool {
        match self.n(t) {
            Node::F(op, _) => matches!(op, FOp::Trunc | FOp::Round | FOp::RoundEven | FOp::Floor | FOp::Ceil),
            _ => false,
        }
    }
    /// value modulo 2^w of an integer-valued real polynomial
    fn fp_to_bv(&mut self, t: T, w: u16) -> Option<T> {
        if let Node::Ite(c, a, b) = *self.n(t) {
            let x = self.fp_to_bv(a, w)?;
            let y = self.fp_to_bv(b, w)?;
            return Some(self.ite(c, x, y));
        }
        let t = self.fp_clean(t)?;
        let (ts, k) = self.as_fp(t)?;
        let big = |c: f64| -> u128 {
            // c is an integer; reduce modulo 2^w (w <= 64)
            let m = (w as f64).exp2();
            let r = c % m;
            (r as i128) as u128
        };
        let mut r = self.c(big(k), w);
        for (m, c) in ts {
            let mut p = self.c(big(c), w);
            if self.cv(p) == Some(0) {
                continue;
            }
            for a in m.iter() {
                if self.is_real_atom(*a) {
                    return None;
                }
                let wa = self.w(*a);
                let e = if wa < w { self.sext(*a, w) } else { self.extract(*a, 0, w) };
                p = self.mul(p, e);
            }
            r = self.add(r, p);
        }
        Some(r)
    }
    /// what the condition (taken as true or false) says about `ts`, a real polynomial without constant part:
    /// bounds (value, strict) from below and above
    fn fp_bounds(&self, c: T, val: bool, ts: &[(Box<[T]>, f64)], lo: &mut (f64, bool), hi: &mut (f64, bool)) {
        match self.n(c) {
            Node::Not(a) => self.fp_bounds(*a, !val, ts, lo, hi),
            Node::And(a, b) if val => {
                self.fp_bounds(*a, val, ts, lo, hi);
                self.fp_bounds(*b, val, ts, lo, hi);
            }
            Node::Or(a, b) if !val => {
                self.fp_bounds(*a, val, ts, lo, hi);
                self.fp_bounds(*b, val, ts, lo, hi);
            }
            Node::F(op @ (FOp::CmpOlt | FOp::CmpOle), a) => {
                let (Some((p, k1)), Some((q, k2))) = (self.as_fp(a[0]), self.as_fp(a[1])) else { return };
                // p + k1 < q + k2 (or <=), or its opposite q + k2 <= p + k1 (or <)
                let strict = (*op == FOp::CmpOlt) == val;
                let mut d: Vec<(Box<[T]>, f64)> = p;
                for (m, c) in q {
                    match d.iter_mut().find(|x| x.0 == m) {
                        Some(x) => x.1 -= c,
                        None => d.push((m, -c)),
                    }
                }
                d.retain(|x| x.1 != 0.0);
                if d.len() != ts.len() || d.is_empty() {
                    return;
                }
                // d = f * ts?
                let Some(f) = d.iter().find(|x| x.0 == ts[0].0).map(|x| x.1 / ts[0].1) else { return };
                if !ts.iter().all(|x| d.iter().any(|y| y.0 == x.0 && y.1 == f * x.1)) {
                    return;
                }
                // f*ts < k2 - k1 (val) or f*ts >= k2 - k1
                let b = (k2 - k1) / f;
                if (f > 0.0) == val {
                    if b < hi.0 || (b == hi.0 && strict) {
                        *hi = (b, strict);
                    }
                } else if b > lo.0 || (b == lo.0 && strict) {
                    *lo = (b, strict);
                }
            }
            _ => {}
        }
    }
    /// bound of the absolute value of a word read as a signed integer
    fn signed_bound(&self, a: T) -> f64 {
        let w = self.w(a);
        let lim = ((w - 1) as f64).exp2();
        let mt = &self.meta[a as usize];
        if mt.hi < 1u128 << (w - 1) {
            return mt.hi as f64;
        }
        if let Node::Poly(ts, k) = self.n(a) {
            let sg = |c: u128| (sext(c, w) as i128 as f64).abs();
            let mut s = sg(*k);
            for (c, m) in ts.iter() {
                s += sg(*c) * m.iter().map(|x| self.meta[*x as usize].hi as f64).product::<f64>();
            }
            if s * 1.001 < lim {
                return s * 1.001;
            }
        }
        lim
    }
    /// bounds of a real polynomial under the conditions
    fn fp_range(&self, t: T, conds: &[(T, bool)]) -> Option<((f64, bool), (f64, bool))> {
        let (ts, k) = self.as_fp(t)?;
        let mut s = 0.0;
        let mut tr = None;
        for (m, c) in ts.iter() {
            if m.len() == 1 && self.is_real_atom(m[0]) {
                match self.n(m[0]) {
                    Node::F(FOp::Trunc, a) if tr.is_none() => tr = Some((m.clone(), *c, a[0])),
                    _ => return None,
                }
                continue;
            }
            let mut p = c.abs();
            for a in m.iter() {
                if self.is_real_atom(*a) {
                    return None;
                }
                p *= self.signed_bound(*a);
            }
            s += p;
        }
        let (mut lo, mut hi) = ((-s, false), (s, false));
        if let Some((m, c, arg)) = tr {
            // x - q*trunc(x/q) + k'
            let (xs, xk) = self.as_fp(arg)?;
            let q = -c;
            let rest: Vec<_> = ts.iter().filter(|x| x.0 != m).collect();
            if rest.len() != xs.len() || !rest.iter().zip(&xs).all(|(a, b)| a.0 == b.0 && a.1 == q * b.1) {
                return None;
            }
            let d = xk * q;
            (lo, hi) = ((-q.abs() - d, true), (q.abs() - d, true));
        }
        for (c, v) in conds {
            self.fp_bounds(*c, *v, &ts, &mut lo, &mut hi);
        }
        Some(((lo.0 + k, lo.1), (hi.0 + k, hi.1)))
    }
    /// saturating conversion to a signed integer of width w
    fn fp_to_int(&mut self, t: T, w: u16, conds: &mut Vec<(T, bool)>) -> Option<T> {
        if let Node::Ite(c, a, b) = *self.n(t) {
            conds.push((c, true));
            let x = self.fp_to_int(a, w, conds);
            conds.pop();
            conds.push((c, false));
            let y = self.fp_to_int(b, w, conds);
            conds.pop();
            return Some(self.ite(c, x?, y?));
        }
        let (lo, hi) = self.fp_range(t, conds)?;
        let mut r = self.fp_to_bv(t, w)?;
        let lim = ((w - 1) as f64).exp2();
        if !(lo.0 >= -lim || (lo.0 >= -lim - 1.0 && lo.1)) {
            let l = self.c((-lim).to_bits() as u128, 64);
            let c = self.fop(FOp::CmpOlt, &[t, l], 1);
            let v = self.c(1u128 << (w - 1), w);
            r = self.ite(c, v, r);
        }
        if !(hi.0 < lim || (hi.0 == lim && hi.1)) {
            let l = self.c(lim.to_bits() as u128, 64);
            let c = self.fop(FOp::CmpOle, &[l, t], 1);
            let v = self.c((1u128 << (w - 1)) - 1, w);
            r = self.ite(c, v, r);
        }
        Some(r)
    }
    fn rop(&mut self, op: FOp, args: &[T], w: u16) -> Option<T> {
        use FOp::*;
        match op {
            SiToFp | UiToFp if w == 64 => {
                let mut a = args[0];
                if matches!(op, UiToFp) {
                    let wa = self.w(a);
                    a = self.zext(a, wa + 1);
                }
                return Some(self.from_fp(vec![(vec![a].into_boxed_slice(), 1.0)], 0.0));
            }
            Dyadic => {
                let e = sext(self.cv(args[1])?, 64) as f64;
                return Some(self.from_fp(vec![(vec![args[0]].into_boxed_slice(), e.exp2())], 0.0));
            }
            FpToSi | FpToSiSat if w <= 64 => {
                return self.fp_to_int(args[0], w, &mut vec![]);
            }
            FpToUi | FpToUiSat | FpExt | FpTrunc | SiToFp | UiToFp => return None,
            _ => {}
        }
        if args.iter().any(|a| self.w(*a) != 64) {
            return None;
        }
        match op {
            Add | Sub => {
                for (i, j) in [(0, 1), (1, 0)] {
                    if let (Node::Ite(c, x, y), Some(_)) = (self.n(args[i]).clone(), self.as_fp(args[j])) {
                        let (mut p, mut q) = ([x, x], [y, y]);
                        p[j] = args[j];
                        q[j] = args[j];
                        let x = self.fop(op, &p, w);
                        let y = self.fop(op, &q, w);
                        return Some(self.ite(c, x, y));
                    }
                }
                let (mut p, k1) = self.as_fp(args[0])?;
                let (q, k2) = self.as_fp(args[1])?;
                let sg = if op == Add { 1.0 } else { -1.0 };
                p.extend(q.into_iter().map(|(m, c)| (m, c * sg)));
                Some(self.from_fp(p, k1 + sg * k2))
            }
            Neg => {
                let (p, k) = self.as_fp(args[0])?;
                let p = p.into_iter().map(|(m, c)| (m, -c)).collect();
                Some(self.from_fp(p, -k))
            }
            Mul => {
                let (p, k1) = self.as_fp(args[0])?;
                let (q, k2) = self.as_fp(args[1])?;
                if p.len() * q.len() > 4_000_000 {
                    return None;
                }
                let mut out = Vec::with_capacity(p.len() * q.len() + p.len() + q.len());
                for (m1, c1) in p.iter() {
                    for (m2, c2) in q.iter() {
                        let mut m: Vec<T> = m1.iter().chain(m2.iter()).cloned().collect();
                        m.sort();
                        out.push((m.into_boxed_slice(), c1 * c2));
                    }
                    if k2 != 0.0 {
                        out.push((m1.clone(), c1 * k2));
                    }
                }
                if k1 != 0.0 {
                    for (m2, c2) in q.iter() {
                        out.push((m2.clone(), c2 * k1));
                    }
                }
                Some(self.from_fp(out, k1 * k2))
            }
            Div => {
                let d = self.fconst(args[1])?;
                let (p, k) = self.as_fp(args[0])?;
                let p = p.into_iter().map(|(m, c)| (m, c / d)).collect();
                Some(self.from_fp(p, k / d))
            }
            Fma => {
                let m = self.fop(Mul, &args[..2], w);
                Some(self.fop(Add, &[m, args[2]], w))
            }
            Round | RoundEven | Floor | Ceil | Trunc => {
                // reals mode ignores rounding of intermediate results, hence near-integers are integers
                if let Some(t) = self.fp_clean(args[0]) {
                    return Some(t);
                }
                self.as_fp(args[0])?;
                None
            }
            CmpOeq | CmpOle | CmpOlt => {
                let d = self.fop(Sub, &[args[0], args[1]], 64);
                let k = self.fconst(d)?;
                let r = match op {
                    CmpOeq => k == 0.0,
                    CmpOle => k <= 0.0,
                    _ => k < 0.0,
                };
                Some(if r { self.tru() } else { self.fals() })
            }
            CmpUno => {
                self.as_fp(args[0])?;
                self.as_fp(args[1])?;
                Some(self.fals())
            }
            _ => None,
        }
    }

    // ---------- evaluation under an assignment ----------
    pub fn eval(&self, t: T, env: &dyn Fn(u32) -> u128, memo: &mut HashMap<T, u128>) -> Option<u128> {
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let mut pend = false;
            self.children(x, &mut |c| {
                if !memo.contains_key(&c) {
                    stack.push(c);
                    pend = true;
                }
            });
            if pend {
                continue;
            }
            let v = self.eval1(x, env, memo)?;
            memo.insert(x, v);
            stack.pop();
        }
        memo.get(&t).copied()
    }
    /// Rewrite every masked polynomial `P mod 2^k` inside a linear position as `P - (P >> k) * 2^k`,
    /// so that telescoping sums of digits collapse.  Equivalence-preserving.
    pub fn relow(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        if self.low_map.is_empty() {
            return t;
        }
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let w = self.w(t);
        let r = match self.n(t).clone() {
            Node::Poly(ts, k) => {
                let mut r = self.c(k, w);
                for (c, m) in ts.iter() {
                    let mut p = self.c(*c, w);
                    for a in m.iter() {
                        let e = self.relow(*a, memo);
                        p = self.mul(p, e);
                    }
                    r = self.add(r, p);
                }
                r
            }
            Node::Not(a) => {
                let a = self.relow(a, memo);
                self.not(a)
            }
            Node::And(a, b) if w == 1 => {
                let (a, b) = (self.relow(a, memo), self.relow(b, memo));
                self.and(a, b)
            }
            Node::Or(a, b) if w == 1 => {
                let (a, b) = (self.relow(a, memo), self.relow(b, memo));
                self.or(a, b)
            }
            Node::Eq(a, b) => {
                let (a, b) = (self.relow(a, memo), self.relow(b, memo));
                self.eq(a, b)
            }
            Node::Ult(a, b) => {
                let (a, b) = (self.relow(a, memo), self.relow(b, memo));
                self.ult(a, b)
            }
            Node::Slt(a, b) => {
                let (a, b) = (self.relow(a, memo), self.relow(b, memo));
                self.slt(a, b)
            }
            _ => match self.low_map.get(&t).copied() {
                Some((p, k)) => {
                    let q = self.relow(p, memo);
                    let kk = self.c(k as u128, w);
                    let h = self.lshr(p, kk);
                    let s = self.shl(h, kk);
                    self.sub(q, s)
                }
                None => match *self.n(t) {
                    Node::SExt(a) if self.w(a) > 1 => {
                        let a = self.relow(a, memo);
                        self.sext(a, w)
                    }
                    Node::ZExt(a) if self.w(a) > 1 => {
                        let a = self.relow(a, memo);
                        self.zext(a, w)
                    }
                    _ => t,
                },
            },
        };
        memo.insert(t, r);
        r
    }
    /// Over-approximation of the boolean `t`: every non-leaf term whose distance from the root is
    /// `depth` word-level operations becomes an unconstrained value of the same range.
    /// `None` when nothing was cut.
    pub fn abstracted(&mut self, t: T, depth: u32, vars: &mut HashMap<T, T>) -> Option<T> {
        let mut dist: HashMap<T, u32> = HashMap::new();
        let mut q = std::collections::VecDeque::new();
        dist.insert(t, 0);
        q.push_back(t);
        let mut cut = false;
        let mut sub: HashMap<T, T> = HashMap::new();
        while let Some(x) = q.pop_front() {
            let d = dist[&x];
            if matches!(self.n(x), Node::Const(_) | Node::Var(_)) {
                continue;
            }
            let w = self.w(x);
            if w > 1 && w <= 128 && d >= depth {
                let v = match vars.get(&x) {
                    Some(v) => *v,
                    None => {
                        let (lo, hi) = (self.lo(x), self.hi(x));
                        let v = self.var(format!("cut{}", x), w, lo, hi, false);
                        vars.insert(x, v);
                        v
                    }
                };
                sub.insert(x, v);
                cut = true;
                continue;
            }
            let step = if w > 1 { 1 } else { 0 };
            let mut ch = vec![];
            self.children(x, &mut |c| ch.push(c));
            for c in ch {
                let nd = d + step;
                match dist.get(&c) {
                    Some(o) if *o <= nd => {}
                    _ => {
                        dist.insert(c, nd);
                        if step == 0 { q.push_front(c) } else { q.push_back(c) }
                    }
                }
            }
        }
        if !cut {
            return None;
        }
        Some(self.subst(t, &mut sub))
    }
    pub fn size(&self, t: T, cap: usize) -> usize {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                if seen.len() >= cap {
                    return cap;
                }
                self.children(x, &mut |c| st.push(c));
            }
        }
        seen.len()
    }
    /// replace terms; `m` is also the memo table
    pub fn subst(&mut self, t: T, m: &mut HashMap<T, T>) -> T {
        if let Some(r) = m.get(&t) {
            return *r;
        }
        let w = self.w(t);
        macro_rules! s { ($x:expr) => { self.subst($x, m) } }
        let r = match self.n(t).clone() {
            Node::Const(_) | Node::Var(_) => t,
            Node::Poly(ts, k) => {
                let mut r = self.c(k, w);
                for (c, mo) in ts.iter() {
                    let mut p = self.c(*c, w);
                    for a in mo.iter() {
                        let e = s!(*a);
                        p = self.mul(p, e);
                    }
                    r = self.add(r, p);
                }
                r
            }
            Node::Mul(a, b) => { let (a, b) = (s!(a), s!(b)); self.mul(a, b) }
            Node::And(a, b) => { let (a, b) = (s!(a), s!(b)); self.and(a, b) }
            Node::Or(a, b) => { let (a, b) = (s!(a), s!(b)); self.or(a, b) }
            Node::Xor(a, b) => { let (a, b) = (s!(a), s!(b)); self.xor(a, b) }
            Node::Not(a) => { let a = s!(a); self.not(a) }
            Node::Shl(a, b) => { let (a, b) = (s!(a), s!(b)); self.shl(a, b) }
            Node::Lshr(a, b) => { let (a, b) = (s!(a), s!(b)); self.lshr(a, b) }
            Node::Ashr(a, b) => { let (a, b) = (s!(a), s!(b)); self.ashr(a, b) }
            Node::UDiv(a, b) => { let (a, b) = (s!(a), s!(b)); self.udiv(a, b) }
            Node::URem(a, b) => { let (a, b) = (s!(a), s!(b)); self.urem(a, b) }
            Node::SDiv(a, b) => { let (a, b) = (s!(a), s!(b)); self.sdiv(a, b) }
            Node::SRem(a, b) => { let (a, b) = (s!(a), s!(b)); self.srem(a, b) }
            Node::Extract(a, lo) => { let a = s!(a); self.extract(a, lo, w) }
            Node::Concat(a, b) => { let (a, b) = (s!(a), s!(b)); self.concat(a, b) }
            Node::ZExt(a) => { let a = s!(a); self.zext(a, w) }
            Node::SExt(a) => { let a = s!(a); self.sext(a, w) }
            Node::Ite(c, a, b) => { let (c, a, b) = (s!(c), s!(a), s!(b)); self.ite(c, a, b) }
            Node::Eq(a, b) => { let (a, b) = (s!(a), s!(b)); self.eq(a, b) }
            Node::Ult(a, b) => { let (a, b) = (s!(a), s!(b)); self.ult(a, b) }
            Node::Slt(a, b) => { let (a, b) = (s!(a), s!(b)); self.slt(a, b) }
            Node::F(op, a) => {
                let mut v = vec![];
                for x in a.iter() {
                    v.push(s!(*x));
                }
                self.fop(op, &v, w)
            }
            Node::FP(..) => t,
        };
        m.insert(t, r);
        r
    }
    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        match self.n(t) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Poly(ts, _) => {
                for (_, m) in ts.iter() {
                    for a in m.iter() {
                        f(*a)
                    }
                }
            }
            Node::And(a, b)
            | Node::Or(a, b)
            | Node::Xor(a, b)
            | Node::Mul(a, b)
            | Node::Shl(a, b)
            | Node::Lshr(a, b)
            | Node::Ashr(a, b)
            | Node::UDiv(a, b)
            | Node::URem(a, b)
            | Node::SDiv(a, b)
            | Node::SRem(a, b)
            | Node::Concat(a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Slt(a, b) => {
                f(*a);
                f(*b)
            }
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => f(*a),
            Node::Ite(c, a, b) => {
                f(*c);
                f(*a);
                f(*b)
            }
            Node::F(_, a) => {
                for x in a.iter() {
                    f(*x)
                }
            }
            Node::FP(ts, _) => {
                for (m, _) in ts.iter() {
                    for x in m.iter() {
                        f(*x)
                    }
                }
            }
        }
    }
    fn eval1(&self, t: T, env: &dyn Fn(u32) -> u128, memo: &HashMap<T, u128>) -> Option<u128> {
        let w = self.w(t);
        if w > 128 {
            return None;
        }
        let mk = mask(w);
        let g = |x: &T| memo[x];
        Some(match self.n(t) {
            Node::Const(c) => *c,
            Node::Var(i) => env(*i) & mk,
            Node::Poly(ts, k) => {
                let mut r = *k;
                for (c, m) in ts.iter() {
                    let mut p = *c;
                    for a in m.iter() {
                        p = p.wrapping_mul(g(a));
                    }
                    r = r.wrapping_add(p);
                }
                r & mk
            }
            Node::Mul(a, b) => g(a).wrapping_mul(g(b)) & mk,
            Node::And(a, b) => g(a) & g(b),
            Node::Or(a, b) => g(a) | g(b),
            Node::Xor(a, b) => g(a) ^ g(b),
            Node::Not(a) => !g(a) & mk,
            Node::Shl(a, b) => {
                let s = g(b);
                if s >= w as u128 {
                    0
                } else {
                    (g(a) << s) & mk
                }
            }
            Node::Lshr(a, b) => {
                let s = g(b);
                if s >= w as u128 {
                    0
                } else {
                    g(a) >> s
                }
            }
            Node::Ashr(a, b) => {
                let s = g(b).min(w as u128 - 1);
                (sext(g(a), w) >> s) as u128 & mk
            }
            Node::UDiv(a, b) => {
                if g(b) == 0 {
                    mk
                } else {
                    g(a) / g(b)
                }
            }
            Node::URem(a, b) => {
                if g(b) == 0 {
                    g(a)
                } else {
                    g(a) % g(b)
                }
            }
            Node::SDiv(a, b) => {
                let (x, y) = (sext(g(a), w), sext(g(b), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        mk
                    }
                } else {
                    x.wrapping_div(y) as u128 & mk
                }
            }
            Node::SRem(a, b) => {
                let (x, y) = (sext(g(a), w), sext(g(b), w));
                if y == 0 {
                    g(a)
                } else {
                    x.wrapping_rem(y) as u128 & mk
                }
            }
            Node::Extract(a, lo) => (g(a) >> lo) & mk,
            Node::Concat(a, b) => (g(a) << self.w(*b)) | g(b),
            Node::ZExt(a) => g(a),
            Node::SExt(a) => sext(g(a), self.w(*a)) as u128 & mk,
            Node::Ite(c, a, b) => {
                if g(c) == 1 {
                    g(a)
                } else {
                    g(b)
                }
            }
            Node::Eq(a, b) => (g(a) == g(b)) as u128,
            Node::Ult(a, b) => (g(a) < g(b)) as u128,
            Node::Slt(a, b) => (sext(g(a), self.w(*a)) < sext(g(b), self.w(*b))) as u128,
            Node::F(op, a) => {
                let v: Vec<(u128, u16)> = a.iter().map(|x| (g(x), self.w(*x))).collect();
                return ffold(*op, &v, w);
            }
            Node::FP(ts, k) => {
                let mut r = f64::from_bits(*k);
                for (m, c) in ts.iter() {
                    let mut p = f64::from_bits(*c);
                    for x in m.iter() {
                        p *= self.atom_val(*x, g(x));
                    }
                    r += p;
                }
                r.to_bits() as u128
            }
        })
    }
}
