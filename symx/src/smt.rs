//! SMT-LIB 2 emission and solver processes.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub type Model = HashMap<u32, u128>;

#[derive(Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

fn lit(v: u128, w: u16) -> String {
    if w == 1 {
        return if v & 1 == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn sort(w: u16) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn nm(ts: &Terms, t: T) -> String {
    match ts.n(t) {
        Node::Const(c) => lit(*c, ts.w(t)),
        Node::Var(i) => format!("v{}", i),
        _ => format!("t{}", t),
    }
}

/// emit definitions for everything reachable from `roots` that is not in `done`
pub fn emit(ts: &Terms, roots: &[T], done: &mut HashSet<T>, out: &mut String, opaque: &mut bool) {
    let mut order = vec![];
    let mut stack: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, post)) = stack.pop() {
        if post {
            if done.insert(t) {
                order.push(t);
            }
            continue;
        }
        if done.contains(&t) {
            continue;
        }
        if matches!(ts.n(t), Node::Const(_)) {
            continue;
        }
        stack.push((t, true));
        if !is_opaque(ts, t) {
            ts.children(t, &mut |c| {
                if !done.contains(&c) {
                    stack.push((c, false))
                }
            });
        }
    }
    for t in order {
        let w = ts.w(t);
        let n = |x: &T| nm(ts, *x);
        let body = match ts.n(t) {
            Node::Const(_) => continue,
            Node::Var(i) => {
                let v = &ts.vars[*i as usize];
                out.push_str(&format!("(declare-fun v{} () {})\n", i, sort(w)));
                if w > 1 {
                    if v.lo > 0 {
                        out.push_str(&format!("(assert (bvuge v{} {}))\n", i, lit(v.lo, w)));
                    }
                    if v.hi < mask(w) {
                        out.push_str(&format!("(assert (bvule v{} {}))\n", i, lit(v.hi, w)));
                    }
                }
                continue;
            }
            Node::F(op, a) if !is_opaque(ts, t) => {
                emit_fp(ts, t, *op, a, out);
                continue;
            }
            Node::F(..) | Node::FP(..) => {
                *opaque = true;
                out.push_str(&format!("(declare-fun t{} () {})\n", t, sort(w)));
                continue;
            }
            Node::Poly(terms, k) => {
                let zero = lit(0, w);
                let mut parts = vec![];
                for (c, m) in terms.iter() {
                    let mut bits = vec![];
                    let mut facs = vec![];
                    for a in m.iter() {
                        if let Node::ZExt(x) = ts.n(*a) {
                            if ts.w(*x) == 1 {
                                bits.push(*x);
                                continue;
                            }
                        }
                        facs.push(*a);
                    }
                    let mut e = if facs.is_empty() {
                        lit(*c, w)
                    } else {
                        let mut p = n(&facs[0]);
                        for f in &facs[1..] {
                            p = format!("(bvmul {} {})", p, n(f));
                        }
                        if *c == 1 {
                            p
                        } else if *c == mask(w) {
                            format!("(bvneg {})", p)
                        } else if c.is_power_of_two() {
                            let s = c.trailing_zeros() as u16;
                            format!("(concat ((_ extract {} 0) {}) #b{})", w - 1 - s, p, "0".repeat(s as usize))
                        } else {
                            format!("(bvmul {} {})", lit(*c, w), p)
                        }
                    };
                    if !bits.is_empty() {
                        let c = if bits.len() == 1 { n(&bits[0]) } else { format!("(and {})", bits.iter().map(|b| n(b)).collect::<Vec<_>>().join(" ")) };
                        e = format!("(ite {} {} {})", c, e, zero);
                    }
                    parts.push(e);
                }
                if *k != 0 {
                    parts.push(lit(*k, w));
                }
                let mut s = parts[0].clone();
                for p in &parts[1..] {
                    s = format!("(bvadd {} {})", s, p);
                }
                s
            }
            Node::Mul(a, b) => format!("(bvmul {} {})", n(a), n(b)),
            Node::And(a, b) => format!("({} {} {})", if w == 1 { "and" } else { "bvand" }, n(a), n(b)),
            Node::Or(a, b) => format!("({} {} {})", if w == 1 { "or" } else { "bvor" }, n(a), n(b)),
            Node::Xor(a, b) => format!("({} {} {})", if w == 1 { "xor" } else { "bvxor" }, n(a), n(b)),
            Node::Not(a) => format!("({} {})", if w == 1 { "not" } else { "bvnot" }, n(a)),
            Node::Shl(a, b) => format!("(bvshl {} {})", n(a), n(b)),
            Node::Lshr(a, b) => format!("(bvlshr {} {})", n(a), n(b)),
            Node::Ashr(a, b) => format!("(bvashr {} {})", n(a), n(b)),
            Node::UDiv(a, b) => format!("(bvudiv {} {})", n(a), n(b)),
            Node::URem(a, b) => format!("(bvurem {} {})", n(a), n(b)),
            Node::SDiv(a, b) => format!("(bvsdiv {} {})", n(a), n(b)),
            Node::SRem(a, b) => format!("(bvsrem {} {})", n(a), n(b)),
            Node::Extract(a, l) => {
                let wa = ts.w(*a);
                let s = if wa == 1 {
                    n(a)
                } else {
                    format!("((_ extract {} {}) {})", *l + w - 1, l, n(a))
                };
                if w == 1 && wa != 1 {
                    format!("(= {} #b1)", s)
                } else {
                    s
                }
            }
            Node::Concat(a, b) => {
                let f = |x: &T| if ts.w(*x) == 1 { format!("(ite {} #b1 #b0)", n(x)) } else { n(x) };
                format!("(concat {} {})", f(a), f(b))
            }
            Node::ZExt(a) => {
                let wa = ts.w(*a);
                if wa == 1 {
                    format!("(ite {} {} {})", n(a), lit_w(1, w), lit_w(0, w))
                } else {
                    format!("((_ zero_extend {}) {})", w - wa, n(a))
                }
            }
            Node::SExt(a) => {
                let wa = ts.w(*a);
                if wa == 1 {
                    format!("(ite {} (bvnot {}) {})", n(a), lit_w(0, w), lit_w(0, w))
                } else {
                    format!("((_ sign_extend {}) {})", w - wa, n(a))
                }
            }
            Node::Ite(c, a, b) => format!("(ite {} {} {})", n(c), n(a), n(b)),
            Node::Eq(a, b) => format!("(= {} {})", n(a), n(b)),
            Node::Ult(a, b) => {
                if ts.w(*a) == 1 {
                    format!("(and (not {}) {})", n(a), n(b))
                } else {
                    format!("(bvult {} {})", n(a), n(b))
                }
            }
            Node::Slt(a, b) => {
                if ts.w(*a) == 1 {
                    format!("(and {} (not {}))", n(a), n(b))
                } else {
                    format!("(bvslt {} {})", n(a), n(b))
                }
            }
        };
        out.push_str(&format!("(define-fun t{} () {} {})\n", t, sort(w), body));
    }
}
/// float operations without an SMT meaning become unconstrained values
fn is_opaque(ts: &Terms, t: T) -> bool {
    match ts.n(t) {
        Node::FP(..) => true,
        Node::F(op, a) => {
            use FOp::*;
            ts.reals
                || matches!(op, Rem | Exp | Exp2 | Log | Sin | Cos | Pow | Fft | CopySign | FpToUi)
                || (matches!(op, Dyadic) && ts.cv(a[1]).is_none())
        }
        _ => false,
    }
}
fn emit_fp(ts: &Terms, t: T, op: FOp, a: &[T], out: &mut String) {
    use FOp::*;
    let w = ts.w(t);
    let fs = |w: u16| if w == 32 { "8 24" } else { "11 53" };
    let fp = |x: T| format!("((_ to_fp {}) {})", fs(ts.w(x)), nm(ts, x));
    let bits = |v: f64| {
        if w == 32 {
            format!("((_ to_fp 8 24) {})", lit((v as f32).to_bits() as u128, 32))
        } else {
            format!("((_ to_fp 11 53) {})", lit(v.to_bits() as u128, 64))
        }
    };
    let bvn = |x: T| if ts.w(x) == 1 { format!("(ite {} #b1 #b0)", nm(ts, x)) } else { nm(ts, x) };
    let e = match op {
        Add => format!("(fp.add RNE {} {})", fp(a[0]), fp(a[1])),
        Sub => format!("(fp.sub RNE {} {})", fp(a[0]), fp(a[1])),
        Mul => format!("(fp.mul RNE {} {})", fp(a[0]), fp(a[1])),
        Div => format!("(fp.div RNE {} {})", fp(a[0]), fp(a[1])),
        Fma => format!("(fp.fma RNE {} {} {})", fp(a[0]), fp(a[1]), fp(a[2])),
        Neg => format!("(fp.neg {})", fp(a[0])),
        Abs => format!("(fp.abs {})", fp(a[0])),
        Sqrt => format!("(fp.sqrt RNE {})", fp(a[0])),
        Round => format!("(fp.roundToIntegral RNA {})", fp(a[0])),
        RoundEven => format!("(fp.roundToIntegral RNE {})", fp(a[0])),
        Floor => format!("(fp.roundToIntegral RTN {})", fp(a[0])),
        Ceil => format!("(fp.roundToIntegral RTP {})", fp(a[0])),
        Trunc => format!("(fp.roundToIntegral RTZ {})", fp(a[0])),
        MaxNum => format!("(fp.max {} {})", fp(a[0]), fp(a[1])),
        MinNum => format!("(fp.min {} {})", fp(a[0]), fp(a[1])),
        SiToFp => format!("((_ to_fp {}) RNE {})", fs(w), bvn(a[0])),
        UiToFp => format!("((_ to_fp_unsigned {}) RNE {})", fs(w), bvn(a[0])),
        FpExt | FpTrunc => format!("((_ to_fp {}) RNE {})", fs(w), fp(a[0])),
        Dyadic => {
            let e = sext(ts.cv(a[1]).unwrap(), 64) as f64;
            format!("(fp.mul RNE ((_ to_fp 11 53) RNE {}) {})", bvn(a[0]), bits(e.exp2()))
        }
        FpToSi | FpToSiSat => {
            let x = fp(a[0]);
            let wa = ts.w(a[0]);
            let k = |v: f64| if wa == 32 { format!("((_ to_fp 8 24) {})", lit((v as f32).to_bits() as u128, 32)) } else { format!("((_ to_fp 11 53) {})", lit(v.to_bits() as u128, 64)) };
            let lim = ((w - 1) as f64).exp2();
            out.push_str(&format!(
                "(define-fun t{} () {} (ite (fp.isNaN {x}) {} (ite (fp.lt {x} {}) {} (ite (fp.geq {x} {}) {} ((_ fp.to_sbv {}) RTZ {x})))))\n",
                t, sort(w), lit(0, w), k(-lim), lit(1u128 << (w - 1), w), k(lim), lit((1u128 << (w - 1)) - 1, w), w
            ));
            return;
        }
        FpToUiSat => {
            let x = fp(a[0]);
            let wa = ts.w(a[0]);
            let k = |v: f64| if wa == 32 { format!("((_ to_fp 8 24) {})", lit((v as f32).to_bits() as u128, 32)) } else { format!("((_ to_fp 11 53) {})", lit(v.to_bits() as u128, 64)) };
            let lim = (w as f64).exp2();
            out.push_str(&format!(
                "(define-fun t{} () {} (ite (fp.isNaN {x}) {z} (ite (fp.lt {x} {}) {z} (ite (fp.geq {x} {}) {} ((_ fp.to_ubv {}) RTZ {x})))))\n",
                t, sort(w), k(0.0), k(lim), lit(mask(w), w), w, z = lit(0, w)
            ));
            return;
        }
        CmpOeq | CmpOlt | CmpOle | CmpUno => {
            let (x, y) = (fp(a[0]), fp(a[1]));
            let b = match op {
                CmpOeq => format!("(fp.eq {} {})", x, y),
                CmpOlt => format!("(fp.lt {} {})", x, y),
                CmpOle => format!("(fp.leq {} {})", x, y),
                _ => format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y),
            };
            out.push_str(&format!("(define-fun t{} () Bool {})\n", t, b));
            return;
        }
        _ => unreachable!(),
    };
    out.push_str(&format!("(declare-fun t{t} () {})\n(assert (= ((_ to_fp {}) t{t}) {}))\n", sort(w), fs(w), e));
}
fn lit_w(v: u128, w: u16) -> String {
    if w <= 128 {
        lit(v, w)
    } else {
        format!("(_ bv{} {})", v, w)
    }
}

fn parse_values(s: &str, m: &mut Model) {
    // ((v1 #x..) (v2 true) ...)
    let mut it = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty());
    while let Some(k) = it.next() {
        let Some(id) = k.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) else { continue };
        let Some(v) = it.next() else { break };
        let val = if v == "true" {
            1
        } else if v == "false" {
            0
        } else if let Some(h) = v.strip_prefix("#x") {
            u128::from_str_radix(h, 16).unwrap_or(0)
        } else if let Some(h) = v.strip_prefix("#b") {
            u128::from_str_radix(h, 2).unwrap_or(0)
        } else {
            continue;
        };
        m.insert(id, val);
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub guessed: u64,
    pub time: f64,
    pub by_solver: HashMap<String, u64>,
    pub max_query: f64,
}

/// long-lived incremental solver
pub struct Session {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    done: HashSet<T>,
    stack: Vec<T>,
    pub opaque: bool,
}
impl Session {
    pub fn new() -> Session {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2", "-memory:6000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let mut stdin = child.stdin.take().unwrap();
        let _ = stdin.write_all(b"(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        Session { child, stdin, rx, done: HashSet::new(), stack: vec![], opaque: false }
    }
    pub fn check(&mut self, ts: &Terms, path: &[T], extra: &[T], ms: u64, want_model: bool) -> Res {
        let mut out = String::new();
        // range assertions made inside emit() must be global: pop to level 0 first if new variables appear
        let mut newdone = self.done.clone();
        let mut defs = String::new();
        let roots: Vec<T> = path.iter().chain(extra.iter()).copied().collect();
        emit(ts, &roots, &mut newdone, &mut defs, &mut self.opaque);
        let has_assert = defs.contains("(assert ");
        if has_assert {
            if !self.stack.is_empty() {
                out.push_str(&format!("(pop {})\n", self.stack.len()));
                self.stack.clear();
            }
        }
        self.done = newdone;
        out.push_str(&defs);
        let common = self.stack.iter().zip(path.iter()).take_while(|(a, b)| a == b).count();
        if self.stack.len() > common {
            out.push_str(&format!("(pop {})\n", self.stack.len() - common));
            self.stack.truncate(common);
        }
        for p in &path[common..] {
            out.push_str(&format!("(push 1)\n(assert {})\n", nm(ts, *p)));
            self.stack.push(*p);
        }
        out.push_str("(push 1)\n");
        for e in extra {
            out.push_str(&format!("(assert {})\n", nm(ts, *e)));
        }
        out.push_str(&format!("(set-option :timeout {})\n(check-sat)\n(echo \"@@A\")\n", ms));
        if self.stdin.write_all(out.as_bytes()).is_err() {
            return Res::Unknown("solver died".into());
        }
        let mut ans = String::new();
        let dl = Instant::now() + Duration::from_millis(ms + 20000);
        loop {
            let left = dl.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("@@A") {
                        break;
                    }
                    ans.push_str(&l);
                    ans.push('\n');
                }
                Err(_) => {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    *self = Session::new();
                    return Res::Unknown("solver hang".into());
                }
            }
        }
        if ans.contains("(error") {
            return Res::Unknown(format!("solver error: {}", ans.trim()));
        }
        let r = if ans.starts_with("unsat") {
            Res::Unsat
        } else if ans.starts_with("sat") {
            let mut m = Model::new();
            if want_model {
                let vs: Vec<String> = (0..ts.vars.len()).filter(|i| self.done.contains(&ts.vars[*i].term)).map(|i| format!("v{}", i)).collect();
                if !vs.is_empty() {
                    let _ = self.stdin.write_all(format!("(get-value ({}))\n(echo \"@@B\")\n", vs.join(" ")).as_bytes());
                    let mut s = String::new();
                    loop {
                        match self.rx.recv_timeout(Duration::from_secs(30)) {
                            Ok(l) => {
                                if l.contains("@@B") {
                                    break;
                                }
                                s.push_str(&l);
                                s.push(' ');
                            }
                            Err(_) => return Res::Unknown("model".into()),
                        }
                    }
                    parse_values(&s, &mut m);
                }
            }
            Res::Sat(m)
        } else {
            Res::Unknown(ans.trim().to_string())
        };
        let _ = self.stdin.write_all(b"(pop 1)\n");
        r
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn query_text(ts: &Terms, asserts: &[T], opaque: &mut bool) -> (String, Vec<u32>) {
    let mut done = HashSet::new();
    let mut defs = String::new();
    emit(ts, asserts, &mut done, &mut defs, opaque);
    let logic = if defs.contains("(fp.") || defs.contains("to_fp") { "QF_BVFP" } else { "QF_BV" };
    let mut s = format!("(set-option :produce-models true)\n(set-logic {})\n", logic);
    s.push_str(&defs);
    for a in asserts {
        s.push_str(&format!("(assert {})\n", nm(ts, *a)));
    }
    s.push_str("(check-sat)\n");
    let vs: Vec<u32> = (0..ts.vars.len() as u32).filter(|i| done.contains(&ts.vars[*i as usize].term)).collect();
    if !vs.is_empty() {
        s.push_str(&format!("(get-value ({}))\n", vs.iter().map(|i| format!("v{}", i)).collect::<Vec<_>>().join(" ")));
    }
    (s, vs)
}

/// one-shot portfolio; first decisive answer wins
pub fn portfolio(text: &str, ints: Option<String>, dir: &str, secs: u64, only: Option<&[usize]>) -> (Res, String) {
    static CTR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let id = CTR.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let path = format!("{}/q{}_{}.smt2", dir, std::process::id(), id);
    std::fs::write(&path, text).expect("write query");
    let t = secs.to_string();
    let tms = (secs * 1000).to_string();
    let fp = text.contains("QF_BVFP");
    let all: Vec<(&str, Vec<String>)> = if fp { vec![
        ("z3-new", vec![format!("-T:{}", t), "-memory:6000".into(), path.clone()]),
        ("cvc5", vec!["--produce-models".into(), format!("--tlimit={}", tms), path.clone()]),
        ("z3", vec![format!("-T:{}", t), "-memory:6000".into(), path.clone()]),
    ] } else { vec![
        ("z3-new", vec![format!("-T:{}", t), "-memory:6000".into(), path.clone()]),
        ("cvc5", vec!["--produce-models".into(), format!("--tlimit={}", tms), "--bv-solver=bitblast".into(), "--bitblast=eager".into(), path.clone()]),
        ("cvc5", vec!["--produce-models".into(), format!("--tlimit={}", tms), "--solve-bv-as-int=sum".into(), path.clone()]),
        ("z3", vec![format!("-T:{}", t), "-memory:6000".into(), path.clone()]),
    ] };
    let mut all = all;
    let ipath = format!("{}/q{}_{}i.smt2", dir, std::process::id(), id);
    let first_int = all.len();
    if let Some(t) = &ints {
        std::fs::write(&ipath, t).expect("write query");
        all.push(("cvc5", vec![format!("--tlimit={}", tms), ipath.clone()]));
        all.push(("z3-new", vec![format!("-T:{}", secs), "-memory:6000".into(), ipath.clone()]));
        all.push(("z3-new", vec![format!("-T:{}", secs), "-memory:6000".into(), "smt.arith.solver=2".into(), ipath.clone()]));
    }
    let mut kids = vec![];
    let (tx, rx) = channel();
    for (i, (p, a)) in all.iter().enumerate() {
        if let Some(o) = only {
            if !o.contains(&i) {
                continue;
            }
        }
        let Ok(mut c) = Command::new(p).args(a).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
        let mut out = c.stdout.take().unwrap();
        let tx = tx.clone();
        let name = if i >= first_int { format!("{}-lia", p) } else if i == 2 { format!("{}-int", p) } else { p.to_string() };
        std::thread::spawn(move || {
            let mut s = String::new();
            use std::io::Read;
            let _ = out.read_to_string(&mut s);
            let _ = tx.send((i, name, s));
        });
        kids.push(c);
    }
    drop(tx);
    let dl = Instant::now() + Duration::from_secs(secs + 5);
    let mut res = (Res::Unknown("all solvers gave up".into()), String::new());
    while let Ok((i, name, s)) = rx.recv_timeout(dl.saturating_duration_since(Instant::now())) {
        let h = s.trim_start();
        // cvc5/z3 print an error for get-value after unsat; only errors before the verdict matter
        if h.starts_with("unsat") {
            res = (Res::Unsat, name);
            break;
        }
        if h.starts_with("sat") && i < first_int {
            let mut m = Model::new();
            parse_values(&h[3..], &mut m);
            res = (Res::Sat(m), name);
            break;
        }
    }
    for mut k in kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let _ = std::fs::remove_file(&path);
    if ints.is_some() {
        let _ = std::fs::remove_file(&ipath);
    }
    res
}
