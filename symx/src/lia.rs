//! Queries over words as queries over integers: words are integers between 0 and 2^w - 1, wrap-around
//! and shifts become quotients and remainders, products of two unknowns and everything else that has
//! no linear meaning become unknowns with bounds.  The result allows more than the original, so only
//! `unsat` means something.
use crate::term::*;
use std::collections::HashMap;

pub struct Ints<'a> {
    ts: &'a Terms,
    out: String,
    name: HashMap<T, String>,
    splits: HashMap<(String, u32), (String, String)>,
    prods: HashMap<Vec<T>, String>,
    lets: HashMap<String, String>,
    /// name of (e mod 2^w) -> e, if the only question is whether e < 0
    borrows: HashMap<String, String>,
    /// name of (e < 0) -> e
    borrow_bits: HashMap<String, String>,
    n: usize,
    pub products: bool,
}
fn pow2(w: u32) -> String {
    // 2^w in decimal
    let mut d = vec![1u8];
    for _ in 0..w {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
fn signed(c: u128, w: u16) -> (bool, u128) {
    if w > 1 && c >> (w - 1) & 1 == 1 {
        (true, (!c).wrapping_add(1) & mask(w))
    } else {
        (false, c)
    }
}
fn lit(neg: bool, v: u128) -> String {
    if neg {
        format!("(- {})", v)
    } else {
        v.to_string()
    }
}
impl<'a> Ints<'a> {
    pub fn new(ts: &'a Terms) -> Ints<'a> {
        Ints { ts, out: String::new(), name: HashMap::new(), splits: HashMap::new(), prods: HashMap::new(), lets: HashMap::new(), borrows: HashMap::new(), borrow_bits: HashMap::new(), n: 0, products: false }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        let s = format!("i{}", self.n);
        self.out.push_str(&format!("(declare-fun {} () Int)\n", s));
        s
    }
    fn say(&mut self, s: String) {
        self.out.push_str(&format!("(assert {})\n", s));
    }
    /// unknown between 0 and hi
    fn unknown(&mut self, hi: u128) -> String {
        let s = self.fresh();
        self.say(format!("(<= 0 {} {})", s, hi));
        s
    }
    /// e = q * 2^k + r with 0 <= r < 2^k
    fn split(&mut self, e: &str, k: u32) -> (String, String) {
        if let Some(x) = self.splits.get(&(e.to_string(), k)) {
            return x.clone();
        }
        let (q, r) = (self.fresh(), self.fresh());
        let p = pow2(k);
        self.say(format!("(= {} (+ (* {} {}) {}))", e, p, q, r));
        self.say(format!("(and (<= 0 {}) (< {} {}))", r, r, p));
        self.splits.insert((e.to_string(), k), (q.clone(), r.clone()));
        (q, r)
    }
    fn let_(&mut self, e: String) -> String {
        if !e.starts_with('(') {
            return e;
        }
        if let Some(s) = self.lets.get(&e) {
            return s.clone();
        }
        self.n += 1;
        let s = format!("d{}", self.n);
        self.lets.insert(e.clone(), s.clone());
        self.out.push_str(&format!("(define-fun {} () Int {})\n", s, e));
        s
    }
    /// e mod 2^w
    fn wrap(&mut self, e: String, w: u16, range: Option<(i128, i128)>) -> String {
        let e = self.let_(e);
        let known = self.splits.contains_key(&(e.clone(), w as u32));
        if let (Some((lo, hi)), true) = (range, w <= 120) {
            let p = 1i128 << w;
            if lo >= 0 && hi < p {
                return e;
            }
            if lo >= -p && hi < p {
                let s = self.let_(format!("(ite (< {e} 0) (+ {e} {p}) {e})"));
                self.borrows.insert(s.clone(), e);
                return s;
            }
            if lo >= 0 && hi / 2 < p {
                return self.let_(format!("(ite (< {e} {p}) {e} (- {e} {p}))"));
            }
            let (q, r) = self.split(&e, w as u32);
            if !known {
                let (a, b) = (lo.div_euclid(p), hi.div_euclid(p));
                let num = |x: i128| lit(x < 0, x.unsigned_abs());
                self.say(format!("(<= {} {} {})", num(a), q, num(b)));
            }
            return r;
        }
        self.split(&e, w as u32).1
    }
    /// the sum as an integer expression that is right modulo 2^w, and its range
    fn sum(&mut self, terms: &[(u128, Box<[T]>)], k: u128, w: u16) -> (String, Option<(i128, i128)>) {
        let mut parts = vec![];
        let (neg, v) = signed(k, w);
        let small = |neg: bool, v: u128| i128::try_from(v).ok().map(|x| if neg { -x } else { x });
        let mut range = small(neg, v).map(|x| (x, x));
        if v != 0 {
            parts.push(lit(neg, v));
        }
        for (c, m) in terms.iter() {
            let (neg, v) = signed(*c, w);
            let bit = |z: &Self, a: T| matches!(z.ts.n(a), Node::ZExt(x) if z.ts.w(*x) == 1);
            let bits: Vec<T> = m.iter().copied().filter(|a| bit(self, *a)).collect();
            let rest: Vec<T> = m.iter().copied().filter(|a| !bit(self, *a)).collect();
            let mut top = Some(1u128);
            for a in &rest {
                let h = self.max(*a);
                top = top.and_then(|t| t.checked_mul(h));
            }
            let mut e = if rest.is_empty() {
                lit(neg, v)
            } else {
                let mut p = self.product(&rest);
                if rest.len() > 1 && top.is_none_or(|t| t > mask(w)) {
                    p = self.split(&p, w as u32).1;
                    top = Some(mask(w));
                }
                if v == 1 && !neg { p } else { format!("(* {} {})", lit(neg, v), p) }
            };
            for b in &bits {
                let c = self.bit(*b);
                e = format!("(ite {} {} 0)", c, e);
            }
            let reach = top.and_then(|t| t.checked_mul(v)).and_then(|x| small(neg, x));
            range = match (range, reach) {
                (Some((l, h)), Some(x)) => l.checked_add(x.min(0)).zip(h.checked_add(x.max(0))),
                _ => None,
            };
            parts.push(e);
        }
        let e = match parts.len() {
            0 => "0".into(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        (self.let_(e), range)
    }
    fn max(&self, t: T) -> u128 {
        self.ts.hi(t)
    }
    /// no wrap-around is possible
    fn fits(&self, terms: &[(u128, Box<[T]>)], k: u128, w: u16) -> bool {
        let sum = terms.iter().try_fold(k, |s, (c, m)| {
            let p = m.iter().try_fold(*c, |p, a| p.checked_mul(self.max(*a)))?;
            s.checked_add(p)
        });
        sum.is_some_and(|s| s <= mask(w))
    }
    fn strip(&self, t: T) -> T {
        match self.ts.n(t) {
            Node::ZExt(a) if self.ts.w(*a) > 1 => self.strip(*a),
            _ => t,
        }
    }
    /// the integer product of the atoms
    fn product(&mut self, m: &[T]) -> String {
        let mut k: Vec<T> = m.iter().map(|t| self.strip(*t)).collect();
        k.sort();
        if k.len() == 1 {
            return self.int(k[0]);
        }
        if let Some(p) = self.prods.get(&k) {
            return p.clone();
        }
        self.products = true;
        let s = self.fresh();
        self.say(format!("(<= 0 {})", s));
        let ms: Vec<String> = k.iter().map(|t| self.max(*t).to_string()).collect();
        self.say(format!("(<= {} (* {}))", s, ms.join(" ")));
        self.prods.insert(k, s.clone());
        s
    }
    fn bit(&mut self, t: T) -> String {
        if let Some(s) = self.name.get(&t) {
            return s.clone();
        }
        let s = match self.ts.n(t).clone() {
            Node::Const(c) => (if c & 1 == 1 { "true" } else { "false" }).to_string(),
            Node::And(a, b) => format!("(and {} {})", self.bit(a), self.bit(b)),
            Node::Or(a, b) => format!("(or {} {})", self.bit(a), self.bit(b)),
            Node::Xor(a, b) => format!("(xor {} {})", self.bit(a), self.bit(b)),
            Node::Not(a) => format!("(not {})", self.bit(a)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.bit(c), self.bit(a), self.bit(b)),
            Node::Eq(a, b) if self.ts.w(a) == 1 => format!("(= {} {})", self.bit(a), self.bit(b)),
            Node::Eq(a, b) => format!("(= {} {})", self.int(a), self.int(b)),
            Node::Ult(a, b) => format!("(< {} {})", self.int(a), self.int(b)),
            Node::Slt(a, b) if self.ts.w(a) > 1 => format!("(< {} {})", self.sint(a), self.sint(b)),
            Node::Extract(a, l) if self.ts.w(a) > 1 => {
                // the borrow of a difference
                if let (Node::Poly(terms, k), true) = (self.ts.n(a).clone(), self.ts.w(a) == l + 1 && l < 120) {
                    let (e, range) = self.sum(&terms, k, l + 1);
                    if range.is_some_and(|(lo, hi)| lo >= -(1 << l) && hi < 1 << l) {
                        let s = format!("(< {} 0)", e);
                        self.n += 1;
                        let d = format!("c{}", self.n);
                        self.out.push_str(&format!("(define-fun {} () Bool {})\n", d, s));
                        self.name.insert(t, d.clone());
                        self.borrow_bits.insert(d.clone(), e);
                        return d;
                    }
                }
                let x = self.int(a);
                let q = if l == 0 { x } else { self.split(&x, l as u32).0 };
                let r = if self.ts.w(a) == l + 1 { q } else { self.split(&q, 1).1 };
                format!("(= {} 1)", r)
            }
            _ => {
                self.n += 1;
                let s = format!("b{}", self.n);
                self.out.push_str(&format!("(declare-fun {} () Bool)\n", s));
                s
            }
        };
        let s = if s.starts_with('(') {
            self.n += 1;
            let d = format!("c{}", self.n);
            self.out.push_str(&format!("(define-fun {} () Bool {})\n", d, s));
            d
        } else {
            s
        };
        self.name.insert(t, s.clone());
        s
    }
    fn sint(&mut self, t: T) -> String {
        let w = self.ts.w(t) as u32;
        let x = self.int(t);
        if self.max(t) < 1u128 << (w - 1) {
            return x;
        }
        self.let_(format!("(ite (< {} {}) {} (- {} {}))", x, pow2(w - 1), x, x, pow2(w)))
    }
    fn int(&mut self, t: T) -> String {
        let w = self.ts.w(t);
        if w == 1 {
            let b = self.bit(t);
            return self.let_(format!("(ite {} 1 0)", b));
        }
        if let Some(s) = self.name.get(&t) {
            return s.clone();
        }
        let hi = self.max(t);
        let s = match self.ts.n(t).clone() {
            Node::Const(c) => c.to_string(),
            Node::Var(i) => {
                let v = &self.ts.vars[i as usize];
                let (lo, hi) = (v.lo, v.hi.min(mask(w)));
                let s = self.fresh();
                self.say(format!("(<= {} {} {})", lo, s, hi));
                s
            }
            Node::Poly(terms, k) => {
                let (mut e, mut range) = self.sum(&terms, k, w);
                if self.fits(&terms, k, w) {
                    self.name.insert(t, e.clone());
                    return e;
                }
                let p = 1i128 << w.min(120);
                let kk = { let (neg, v) = signed(k, w); v as i128 * if neg { -1 } else { 1 } };
                if k != 0 && w <= 120 && !range.is_some_and(|(lo, hi)| lo - kk >= 0 && hi - kk < p) {
                    // wrap the sum without the constant first: its parts come up elsewhere
                    let (e0, r0) = self.sum(&terms, 0, w);
                    let r = self.wrap(e0, w, r0);
                    let (neg, v) = signed(k, w);
                    let v = v as i128;
                    e = self.let_(format!("(+ {} {})", lit(neg, v as u128), r));
                    range = Some(if neg { (-v, p - 1 - v) } else { (v, p - 1 + v) });
                }
                self.wrap(e, w, range)
            }
            Node::Mul(a, b) => {
                let e = match (self.ts.cv(a), self.ts.cv(b)) {
                    (Some(c), _) => { let x = self.int(b); format!("(* {} {})", c, x) }
                    (_, Some(c)) => { let x = self.int(a); format!("(* {} {})", c, x) }
                    _ => self.product(&[a, b]),
                };
                if self.max(a).checked_mul(self.max(b)).is_some_and(|m| m <= mask(w)) {
                    self.let_(e)
                } else {
                    self.wrap(e, w, None)
                }
            }
            Node::And(a, b) => {
                let (a, b) = if self.ts.cv(a).is_some() { (b, a) } else { (a, b) };
                match self.ts.cv(b) {
                    Some(c) if c != 0 && (c >> c.trailing_zeros()).wrapping_add(1).is_power_of_two() => {
                        let (l, h) = (c.trailing_zeros(), 128 - c.leading_zeros());
                        let mut x = self.int(a);
                        if h < w as u32 {
                            x = self.split(&x, h).1;
                        }
                        if l > 0 {
                            let r = self.split(&x, l).1;
                            x = self.let_(format!("(- {} {})", x, r));
                        }
                        x
                    }
                    _ => {
                        let (x, y) = (self.int(a), self.int(b));
                        let s = self.unknown(hi);
                        self.say(format!("(and (<= {s} {x}) (<= {s} {y}))"));
                        s
                    }
                }
            }
            Node::Or(a, b) | Node::Xor(a, b) => {
                let or = matches!(self.ts.n(t), Node::Or(..));
                let (x, y) = (self.int(a), self.int(b));
                let s = self.unknown(hi);
                self.say(format!("(<= {s} (+ {x} {y}))"));
                if or {
                    self.say(format!("(and (<= {x} {s}) (<= {y} {s}))"));
                }
                s
            }
            Node::Not(a) => {
                let x = self.int(a);
                self.let_(format!("(- {} {})", mask(w), x))
            }
            Node::Shl(a, b) if self.ts.cv(b).is_some_and(|c| c < w as u128) => {
                let c = self.ts.cv(b).unwrap() as u32;
                let x = self.int(a);
                self.wrap(format!("(* {} {})", pow2(c), x), w, None)
            }
            Node::Lshr(a, b) if self.ts.cv(b).is_some_and(|c| c < w as u128) => {
                let c = self.ts.cv(b).unwrap() as u32;
                let x = self.int(a);
                if c == 0 { x } else { self.split(&x, c).0 }
            }
            Node::Ashr(a, b) if self.ts.cv(b).is_some_and(|c| c < w as u128) => {
                let c = self.ts.cv(b).unwrap() as u32;
                let x = self.sint(a);
                let q = if c == 0 { x } else { self.split(&x, c).0 };
                self.let_(format!("(ite (< {q} 0) (+ {q} {}) {q})", pow2(w as u32)))
            }
            Node::UDiv(a, b) | Node::URem(a, b) if self.ts.cv(b).is_some_and(|c| c > 0) => {
                let c = self.ts.cv(b).unwrap();
                let x = self.int(a);
                let key = (format!("{}/{}", x, c), 0);
                let (q, r) = match self.splits.get(&key) {
                    Some(v) => v.clone(),
                    None => {
                        let (q, r) = (self.fresh(), self.fresh());
                        self.say(format!("(= {} (+ (* {} {}) {}))", x, c, q, r));
                        self.say(format!("(and (<= 0 {r}) (< {r} {c}))"));
                        self.splits.insert(key, (q.clone(), r.clone()));
                        (q, r)
                    }
                };
                if matches!(self.ts.n(t), Node::UDiv(..)) { q } else { r }
            }
            Node::Extract(a, l) => {
                let x = self.int(a);
                let q = if l == 0 { x } else { self.split(&x, l as u32).0 };
                if self.ts.w(a) == l + w { q } else { self.split(&q, w as u32).1 }
            }
            Node::Concat(a, b) => {
                let wb = self.ts.w(b) as u32;
                let (x, y) = (self.int(a), self.int(b));
                self.let_(format!("(+ (* {} {}) {})", pow2(wb), x, y))
            }
            Node::ZExt(a) => self.int(a),
            Node::SExt(a) => {
                let wa = self.ts.w(a);
                if wa == 1 {
                    let b = self.bit(a);
                    self.let_(format!("(ite {} {} 0)", b, mask(w)))
                } else {
                    let x = self.int(a);
                    if self.max(a) < 1u128 << (wa - 1) {
                        x
                    } else {
                        self.let_(format!("(ite (< {x} {}) {x} (+ {x} {}))", pow2(wa as u32 - 1), mask(w) - mask(wa)))
                    }
                }
            }
            Node::Ite(c, a, b) => {
                let (c, x, mut y) = (self.bit(c), self.int(a), self.int(b));
                // no borrow in the second case
                if let (Some(e), Some(f)) = (self.borrow_bits.get(&c), self.borrows.get(&y)) {
                    if e == f {
                        y = e.clone();
                    }
                }
                self.let_(format!("(ite {} {} {})", c, x, y))
            }
            _ => self.unknown(hi),
        };
        self.name.insert(t, s.clone());
        s
    }
}
/// the query over integers, if it has products that make words hard
pub fn int_text(ts: &Terms, asserts: &[T]) -> Option<String> {
    let mut z = Ints::new(ts);
    let bs: Vec<String> = asserts.iter().map(|a| z.bit(*a)).collect();
    let mut s = String::from("(set-logic ALL)\n");
    s.push_str(&z.out);
    for b in bs {
        s.push_str(&format!("(assert {})\n", b));
    }
    s.push_str("(check-sat)\n");
    Some(s)
}
