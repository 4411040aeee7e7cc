//! Path-forking symbolic executor for LLVM IR.
use crate::ir::*;
use crate::smt::{self, Model, Res, Session, Stats};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    S(T),
    A(Rc<Vec<V>>),
    N,
}
impl V {
    fn s(&self) -> Result<T, Stop> {
        match self {
            V::S(t) => Ok(*t),
            _ => Err(Stop::Unsup("scalar expected".into())),
        }
    }
    fn a(&self) -> Result<&Rc<Vec<V>>, Stop> {
        match self {
            V::A(t) => Ok(t),
            _ => Err(Stop::Unsup("aggregate expected".into())),
        }
    }
}

#[derive(Debug)]
pub enum Stop {
    /// path finished normally / infeasible / ended by panic that is allowed
    End,
    /// re-execute the current instruction (state was refined)
    Retry,
    Violation(String, String, Option<Model>),
    Unsup(String),
    Undecided(String),
    Limit(String),
}

const UNINIT: T = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub cells: Vec<(T, u8)>,
    pub kind: u8, // 0 heap 1 stack 2 global 3 const global
    pub align: u64,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    block: u32,
    ip: u32,
    prev: u32,
    regs: Vec<V>,
    ret: Option<u32>,
    allocas: Vec<u64>,
    /// 0 normal, 1 hook-before frame, 2 hook-after frame
    hook: u8,
    args: Vec<V>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    dead: BTreeMap<u64, u64>,
    next: u64,
    pub path: Vec<T>,
    facts: Vec<T>,
    model: Option<Rc<Model>>,
    pub inputs: Vec<T>,
    panic_ok: bool,
    steps: u64,
    watch: Vec<(u64, u64, u64, u64)>,
    hook_done: bool,
    in_hook: u32,
    native: BTreeMap<u64, u64>,
    live_heap: i64,
    notes: Vec<(u32, T)>,
    /// concurrent part: None outside sx_run
    thr: Option<Rc<Threads>>,
}

/// Threads inside sx_run.  Context switches happen before atomic accesses to the watched words;
/// plain accesses there are checked for data races (happens-before by vector clocks).
#[derive(Clone, Default)]
struct Threads {
    /// saved frames; the current thread's are in State.frames
    frames: Vec<Vec<Frame>>,
    done: Vec<bool>,
    at_point: Vec<bool>,
    go: bool,
    cur: usize,
    main: Vec<Frame>,
    budget: u64,
    /// switches away from a thread that could go on
    preempt: u64,
    ops: Vec<u64>,
    pending: Option<T>,
    spurious: u32,
    weak: Option<T>,
    atomic: bool,
    clk: Vec<Vec<u32>>,
    pend_acq: Vec<Vec<u32>>,
    fence_rel: Vec<Vec<u32>>,
    rel: BTreeMap<u64, Vec<u32>>,
    /// last write (thread, time), last read per thread, per byte
    data: BTreeMap<u64, (Option<(usize, u32)>, Vec<u32>)>,
}
fn join(a: &mut [u32], b: &[u32]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub stack: Vec<String>,
}

pub struct Opts {
    pub query_secs: u64,
    pub total_secs: u64,
    pub max_paths: u64,
    pub max_steps: u64,
    pub tmp: String,
    pub trace: bool,
    pub concrete: Option<Vec<u128>>,
    pub seed: u64,
    pub max_viol: usize,
    pub reals: bool,
    pub merge: bool,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub panics_ok: u64,
    pub infeasible: u64,
    pub asserts_norm: u64,
    pub asserts_smt: u64,
    pub assert_sites: BTreeMap<u64, u64>,
    pub reach: BTreeMap<u64, u64>,
    pub violations: Vec<Violation>,
    pub undecided: Vec<String>,
    pub unsup: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub cov: std::collections::HashSet<(usize, u32)>,
    pub locs: std::collections::HashSet<u32>,
    pub steps: u64,
    pub forks: u64,
    pub max_inputs: usize,
    pub unexplored: u64,
    pub opaque: bool,
    pub panic_sites: BTreeMap<String, u64>,
    pub outs: Vec<(u32, u128)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ext {
    None,
    Run,
    Thread,
    Any,
    Assume,
    Assert,
    Reach,
    PanicOk,
    Concretize,
    Dyadic,
    Libm,
    Watch,
    Note,
    LiveHeap,
    IsSym,
    Holds,
    Alloc,
    AllocZ,
    Realloc,
    Dealloc,
    Nop,
    Zero,
    One,
    Panic,
    Memcmp,
    Strlen,
    Intrinsic,
    Feature,
    AbortLike,
    ForkEq,
}

pub struct Eng {
    pub m: Module,
    pub ts: Terms,
    pub o: Opts,
    funcs: HashMap<u32, Rc<Func>>,
    ext: Vec<Option<Ext>>,
    gaddr: HashMap<String, u64>,
    gnext: u64,
    fn_by_addr: HashMap<u64, u32>,
    pub sess: Session,
    pub stats: Stats,
    pub rep: Report,
    work: Vec<State>,
    start: Instant,
    undef: HashMap<u16, T>,
    inputs: HashMap<(usize, u16, u64, u64), T>,
    rng: u64,
    kcache: HashMap<(usize, u32), V>,
    asserted: HashSet<(T, usize)>,
    cutvars: HashMap<T, T>,
    joins: HashMap<(usize, u32), Option<u32>>,
}

type R<X> = Result<X, Stop>;

impl Eng {
    pub fn new(m: Module, o: Opts) -> Eng {
        let mut m = m;
        let funcs = std::mem::take(&mut m.funcs).into_iter().map(|(k, v)| (k, Rc::new(v))).collect();
        let n = m.names.len();
        let seed = o.seed;
        let mut ts = Terms::new();
        ts.reals = o.reals;
        Eng {
            m,
            ts,
            o,
            funcs,
            ext: vec![None; n + 4096],
            gaddr: HashMap::new(),
            gnext: 0x10_0000,
            fn_by_addr: HashMap::new(),
            sess: Session::new(),
            stats: Stats::default(),
            rep: Report::default(),
            work: vec![],
            start: Instant::now(),
            undef: HashMap::new(),
            inputs: HashMap::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            kcache: HashMap::new(),
            asserted: HashSet::new(),
            cutvars: HashMap::new(),
            joins: HashMap::new(),
        }
    }

    fn classify(&mut self, id: u32) -> Ext {
        if let Some(Some(e)) = self.ext.get(id as usize) {
            return *e;
        }
        let n = self.m.names[id as usize].clone();
        let c = |s: &str| n.contains(s);
        let e = match n.as_str() {
            "sx_any" => Ext::Any,
            "sx_assume" => Ext::Assume,
            "sx_assert" => Ext::Assert,
            "sx_reach" => Ext::Reach,
            "sx_panic_ok" => Ext::PanicOk,
            "sx_concretize" => Ext::Concretize,
            "sx_dyadic" => Ext::Dyadic,
            "sx_watch" => Ext::Watch,
            "sx_note" => Ext::Note,
            "sx_run" => Ext::Run,
            "sx_thread" => Ext::Thread,
            "sx_live_heap" => Ext::LiveHeap,
            "sx_is_symbolic" => Ext::IsSym,
            "sx_holds" => Ext::Holds,
            "sx_fork_eq" => Ext::ForkEq,
            "memcmp" | "bcmp" => Ext::Memcmp,
            "strlen" => Ext::Strlen,
            "abort" | "exit" | "_exit" => Ext::AbortLike,
            "__cxa_thread_atexit_impl" => Ext::Zero,
            "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" | "pow" | "sqrt" | "atan" | "atan2" | "hypot" | "cbrt" | "sinh" | "cosh" | "tanh" | "asin" | "acos" | "expm1" | "log1p" | "fmod" | "round" | "floor" | "ceil" | "trunc" | "rint" | "fma" => Ext::Libm,
            _ if n.starts_with("llvm.") => Ext::Intrinsic,
            _ if n.starts_with("_R") || n.starts_with("_ZN") || n.starts_with("__r") => {
                if c("14___rust_dealloc") {
                    Ext::Dealloc
                } else if c("19___rust_alloc_zeroed") {
                    Ext::AllocZ
                } else if c("12___rust_alloc") {
                    Ext::Alloc
                } else if c("14___rust_realloc") {
                    Ext::Realloc
                } else if c("___rust_no_alloc_shim_is_unstable") {
                    Ext::Nop
                } else if c("_4core9panicking") || c("_3std9panicking") || c("18handle_alloc_error") || c("_5alloc7raw_vec12handle_error") || c("17rust_begin_unwind") || c("_4core6option13expect_failed") || c("_4core6option13unwrap_failed") || c("_4core6result13unwrap_failed")
                    || c("slice_index_fail") || c("slice_error_fail") || c("17len_mismatch_fail") || (c("_4core4cell") && c("panic_already")) || c("18panic_bounds_check") || c("_4core3str16slice_error_fail")
                {
                    Ext::Panic
                } else if c("10std_detect6detect5cache21detect_and_initialize") {
                    Ext::Feature
                } else if c("_3std3sys12thread_local11destructors") || c("_3std3sys12thread_local5guard") {
                    Ext::Nop
                } else if false {
                    Ext::One
                } else {
                    Ext::None
                }
            }
            _ => Ext::None,
        };
        if self.ext.len() <= id as usize {
            self.ext.resize(id as usize + 4096, None);
        }
        self.ext[id as usize] = Some(e);
        e
    }

    // ---------------- state / solver helpers ----------------
    fn env_eval(&self, t: T, m: &Model, memo: &mut HashMap<T, u128>) -> Option<u128> {
        let ts = &self.ts;
        ts.eval(t, &|i| m.get(&i).copied().unwrap_or(ts.vars[i as usize].lo), memo)
    }
    fn query(&mut self, path: &[T], extra: &[T], ms: u64) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.sess.check(&self.ts, path, extra, ms, true);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_query {
            self.stats.max_query = dt;
        }
        if self.o.trace {
            eprintln!("  session {:.2}s {}", dt, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        if !matches!(r, Res::Unknown(_)) {
            *self.stats.by_solver.entry("z3-session".into()).or_insert(0) += 1;
        }
        r
    }
    /// is path /\ c satisfiable?  None = unknown
    fn feasible(&mut self, st: &State, c: T) -> (Option<bool>, Option<Rc<Model>>) {
        match self.ts.cv(c) {
            Some(0) => return (Some(false), None),
            Some(_) => return (Some(true), st.model.clone()),
            None => {}
        }
        if let Some(m) = &st.model {
            let mut memo = HashMap::new();
            if self.env_eval(c, m, &mut memo) == Some(1) {
                return (Some(true), st.model.clone());
            }
        }
        let nc = self.ts.not(c);
        for p in st.path.iter() {
            if *p == nc {
                return (Some(false), None);
            }
        }
        let path = st.path.clone();
        match self.query(&path, &[c], 8000) {
            Res::Sat(m) => (Some(true), Some(Rc::new(m))),
            Res::Unsat => (Some(false), None),
            Res::Unknown(_) => {
                let mut a = path.clone();
                a.push(c);
                match self.portfolio(&a) {
                    Res::Sat(m) => (Some(true), Some(Rc::new(m))),
                    Res::Unsat => (Some(false), None),
                    Res::Unknown(_) => (None, None),
                }
            }
        }
    }
    fn portfolio(&mut self, asserts: &[T]) -> Res {
        let mut op = false;
        let (text, _) = smt::query_text(&self.ts, asserts, &mut op);
        if op {
            self.rep.opaque = true;
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mul = ["bvmul", "bvurem", "bvudiv"].iter().any(|o| text.contains(o));
        let ints = if mul && !self.o.reals && asserts.iter().map(|a| self.ts.size(*a, 20000)).sum::<usize>() < 20000 { crate::lia::int_text(&self.ts, asserts) } else { None };
        if let (Some(i), Ok(d)) = (&ints, std::env::var("SX_LIA")) {
            std::fs::write(format!("{d}.{}", self.stats.queries), i).unwrap();
        }
        let (r, who) = smt::portfolio(&text, ints, &self.o.tmp, self.o.query_secs, None);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_query {
            self.stats.max_query = dt;
        }
        if self.o.trace {
            eprintln!("  portfolio {:.2}s {} -> {}", dt, who, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        if !who.is_empty() {
            *self.stats.by_solver.entry(who).or_insert(0) += 1;
        }
        r
    }
    fn assume(&mut self, st: &mut State, c: T, model: Option<Rc<Model>>) {
        if self.ts.cv(c).is_some() {
            return;
        }
        if !st.path.contains(&c) {
            // split conjunctions for better sharing
            if let Node::And(a, b) = *self.ts.n(c) {
                self.assume(st, a, model.clone());
                self.assume(st, b, model.clone());
            } else {
                st.path.push(c);
            }
        }
        st.model = model;
    }
    /// remember an implied fact (looked up by `branch`, not sent to the solver)
    fn learn(&mut self, st: &mut State, c: T) {
        if st.facts.len() > 400 {
            st.facts.drain(..200);
        }
        st.facts.push(c);
    }
    /// decide a boolean; forks the other side onto the work list
    fn branch(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.ts.cv(c) {
            return Ok(v == 1);
        }
        let nc = self.ts.not(c);
        for p in st.path.iter().chain(st.facts.iter()) {
            if *p == c {
                return Ok(true);
            }
            if *p == nc {
                return Ok(false);
            }
        }
        let (ft, mt) = self.feasible(st, c);
        if ft == Some(false) {
            // path is feasible, so the other side must hold
            let m = st.model.clone();
            self.learn(st, nc);
            st.model = m;
            return Ok(false);
        }
        let (ff, mf) = self.feasible(st, nc);
        if ff == Some(false) {
            self.learn(st, c);
            if mt.is_some() {
                st.model = mt;
            }
            return Ok(true);
        }
        self.rep.forks += 1;
        let mut other = st.clone();
        self.assume(&mut other, nc, mf);
        self.work.push(other);
        self.assume(st, c, mt);
        Ok(true)
    }
    fn ensure_model(&mut self, st: &mut State) -> R<()> {
        if st.model.is_some() {
            return Ok(());
        }
        let path = st.path.clone();
        match self.query(&path, &[], 8000) {
            Res::Sat(m) => {
                st.model = Some(Rc::new(m));
                Ok(())
            }
            Res::Unsat => {
                self.rep.infeasible += 1;
                Err(Stop::End)
            }
            Res::Unknown(_) => Ok(()),
        }
    }
    fn next_rng(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// find values satisfying all of `asserts` by evaluating the encoding on a few candidate assignments
    fn guess(&mut self, base: &Option<Rc<Model>>, asserts: &[T], tries: u32) -> Option<Model> {
        let mut vars = vec![];
        {
            let mut seen = HashSet::new();
            let mut stack: Vec<T> = asserts.to_vec();
            while let Some(t) = stack.pop() {
                if !seen.insert(t) {
                    continue;
                }
                if let Node::Var(i) = self.ts.n(t) {
                    vars.push(*i);
                }
                self.ts.children(t, &mut |c| stack.push(c));
            }
        }
        if vars.is_empty() {
            return None;
        }
        for k in 0..tries {
            let mut m = base.as_ref().map(|m| (**m).clone()).unwrap_or_default();
            let keep = base.is_some() && k % 2 == 1;
            for v in &vars {
                let (w, lo, hi) = {
                    let x = &self.ts.vars[*v as usize];
                    (x.w, x.lo, x.hi)
                };
                if keep && self.next_rng() % 3 != 0 {
                    continue;
                }
                let r = self.next_rng() as u128 | ((self.next_rng() as u128) << 64);
                let x = match self.next_rng() % 6 {
                    0 => lo,
                    1 => hi,
                    2 => lo.wrapping_add(r % 4),
                    3 => (1u128 << (r % w.max(1) as u128)) & mask(w),
                    _ => {
                        let span = hi.wrapping_sub(lo).wrapping_add(1);
                        if span == 0 {
                            r
                        } else {
                            lo + r % span
                        }
                    }
                };
                m.insert(*v, x.clamp(lo, hi) & mask(w));
            }
            let mut memo = HashMap::new();
            let mut ok = true;
            for a in asserts.iter().rev() {
                if self.env_eval(*a, &m, &mut memo) != Some(1) {
                    ok = false;
                    break;
                }
            }
            if ok {
                return Some(m);
            }
        }
        None
    }
    fn violated(&self, st: &State, kind: &str, msg: &str, m: &Model) -> Violation {
        let mut memo = HashMap::new();
        let inputs = st.inputs.iter().map(|t| self.env_eval(*t, m, &mut memo).unwrap_or(0)).collect();
        Violation {
            kind: kind.into(),
            msg: msg.into(),
            inputs,
            stack: st.frames.iter().rev().take(12).map(|f| f.func.name.clone()).collect(),
        }
    }
    fn model_ok(&self, asserts: &[T], m: &Model) -> Option<bool> {
        let mut memo = HashMap::new();
        for a in asserts {
            match self.env_eval(*a, m, &mut memo) {
                Some(1) => {}
                Some(_) => return Some(false),
                None => return None,
            }
        }
        Some(true)
    }
    /// prove `c` on this path, or report a violation
    fn prove(&mut self, st: &mut State, c: T, code: u64, msg: &str) -> R<()> {
        *self.rep.assert_sites.entry(code).or_insert(0) += 1;
        if self.ts.cv(c) == Some(1) {
            self.rep.asserts_norm += 1;
            return Ok(());
        }
        // split conjunctions
        if let Node::And(a, b) = *self.ts.n(c) {
            *self.rep.assert_sites.get_mut(&code).unwrap() -= 1;
            self.prove(st, a, code, msg)?;
            return self.prove(st, b, code, msg);
        }
        let orig = c;
        let c = self.ts.relow(c, &mut HashMap::new());
        if self.ts.cv(c) == Some(1) {
            self.rep.asserts_norm += 1;
            return Ok(());
        }
        let orig = if c == orig { None } else { Some(orig) };
        if std::env::var("SX_DUMP").is_ok() {
            eprintln!("GOAL {} {}", code, self.show(c, 14));
        }
        let key = (c, st.path.len());
        if st.path.is_empty() && self.asserted.contains(&key) {
            self.rep.asserts_norm += 1;
            return Ok(());
        }
        let nc = self.ts.not(c);
        let mut asserts = st.path.clone();
        asserts.push(nc);
        if let Some(m) = st.model.clone() {
            if self.model_ok(&asserts, &m) == Some(true) {
                return Err(Stop::Violation("assert".into(), format!("code={} {}", code, msg), Some((*m).clone())));
            }
        }
        if let Some(m) = self.guess(&st.model.clone(), &asserts, 60) {
            self.stats.guessed += 1;
            return Err(Stop::Violation("assert".into(), format!("code={} {}", code, msg), Some(m)));
        }
        let path = st.path.clone();
        // first try an over-approximation with the deep parts of the terms replaced by free values
        let sc = self.ts.size(c, 5000);
        for depth in [3, 6] {
            if sc < 60 {
                break;
            }
            for g in orig.into_iter().chain([c]) {
                let mut cv = std::mem::take(&mut self.cutvars);
                let a = self.ts.abstracted(g, depth, &mut cv);
                self.cutvars = cv;
                let Some(a) = a else { continue };
                let ok = match self.ts.cv(a) {
                    Some(v) => v == 1,
                    None => {
                        let na = self.ts.not(a);
                        matches!(self.query(&[], &[na], 250), Res::Unsat)
                    }
                };
                if ok {
                    self.rep.asserts_smt += 1;
                    self.asserted.insert(key);
                    return Ok(());
                }
            }
        }
        let mut r = self.query(&path, &[nc], 4000);
        if let Res::Unknown(_) = r {
            r = self.portfolio(&asserts);
        }
        match r {
            Res::Unsat => {
                self.rep.asserts_smt += 1;
                self.asserted.insert(key);
                Ok(())
            }
            Res::Sat(m) => match self.model_ok(&asserts, &m) {
                Some(true) => Err(Stop::Violation("assert".into(), format!("code={} {}", code, msg), Some(m))),
                Some(false) => match self.guess(&st.model.clone(), &asserts, 3000) {
                    Some(m) => {
                        self.stats.guessed += 1;
                        Err(Stop::Violation("assert".into(), format!("code={} {}", code, msg), Some(m)))
                    }
                    None => Err(Stop::Undecided(format!("model does not satisfy the encoding (code {})", code))),
                },
                None => Err(Stop::Undecided(format!("counterexample depends on an unmodelled float operation (code {})", code))),
            },
            Res::Unknown(e) => {
                // last resort: more candidate assignments
                if let Some(m) = self.guess(&st.model.clone(), &asserts, 3000) {
                    self.stats.guessed += 1;
                    return Err(Stop::Violation("assert".into(), format!("code={} {}", code, msg), Some(m)));
                }
                Err(Stop::Undecided(format!("assert code={} undecided: {}", code, e.replace('\n', " "))))
            }
        }
    }

    // ---------------- memory ----------------
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8) -> u64 {
        let a = align.max(16);
        let base = (st.next + 64 + a - 1) / a * a;
        st.next = base + size;
        st.mem.insert(base, Rc::new(Obj { base, size, cells: vec![(UNINIT, 0); size as usize], kind, align }));
        base
    }
    fn global_addr(&mut self, name: &str) -> R<u64> {
        if let Some(&a) = self.gaddr.get(name) {
            return Ok(a);
        }
        let al = self.m.aliases.get(name).cloned();
        if let Some(Const::Global(n)) = al {
            let a = self.global_addr(&n)?;
            self.gaddr.insert(name.into(), a);
            return Ok(a);
        }
        if let Some(g) = self.m.globals.get(name) {
            let (ty, al) = (g.ty, g.align);
            let size = self.m.size(ty);
            let a = (self.gnext + 32 + al.max(16) - 1) / al.max(16) * al.max(16);
            self.gnext = a + size;
            self.gaddr.insert(name.into(), a);
            return Ok(a);
        }
        if let Some(&id) = self.m.nameidx.get(name) {
            let a = 0x7000_0000_0000 + id as u64 * 16;
            self.gaddr.insert(name.into(), a);
            self.fn_by_addr.insert(a, id);
            return Ok(a);
        }
        let id = self.m.name(name);
        let a = 0x7000_0000_0000 + id as u64 * 16;
        self.gaddr.insert(name.into(), a);
        self.fn_by_addr.insert(a, id);
        Ok(a)
    }
    fn materialize(&mut self, st: &mut State, addr: u64) -> R<bool> {
        // find the global that owns addr
        let mut found = None;
        for (n, a) in &self.gaddr {
            if let Some(g) = self.m.globals.get(n) {
                let ty = g.ty;
                let c = g.constant;
                let sz = self.m.layouts[ty as usize].as_ref().map(|l| l.0).unwrap_or(0);
                if *a <= addr && addr < *a + sz.max(1) {
                    found = Some((n.clone(), *a, sz, c, ty));
                    break;
                }
            }
        }
        let Some((n, a, sz, c, ty)) = found else { return Ok(false) };
        if st.mem.contains_key(&a) {
            return Ok(false);
        }
        let z = self.ts.c(0, 8);
        let mut o = Obj { base: a, size: sz, cells: vec![(z, 0); sz as usize], kind: if c { 3 } else { 2 }, align: 16 };
        let init = self.m.globals[&n].init.clone();
        match init {
            Some(k) => self.init_const(&mut o, 0, ty, &k)?,
            None => {
                for x in o.cells.iter_mut() {
                    *x = (UNINIT, 0)
                }
            }
        }
        st.mem.insert(a, Rc::new(o));
        Ok(true)
    }
    fn init_const(&mut self, o: &mut Obj, off: u64, ty: TyId, k: &Const) -> R<()> {
        match k {
            Const::Zero(_) | Const::Null => {
                let n = self.m.size(ty);
                let z = self.ts.c(0, 8);
                for i in 0..n {
                    o.cells[(off + i) as usize] = (z, 0);
                }
            }
            Const::Undef(_) => {
                let n = self.m.size(ty);
                for i in 0..n {
                    o.cells[(off + i) as usize] = (UNINIT, 0);
                }
            }
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.cells[off as usize + i] = (self.ts.c(*x as u128, 8), 0);
                }
            }
            Const::Agg(t, v) => {
                let tv = self.m.tys[*t as usize].clone();
                match tv {
                    Ty::Array(_, e) | Ty::Vec(_, e) => {
                        let s = self.m.size(e);
                        for (i, x) in v.iter().enumerate() {
                            self.init_const(o, off + s * i as u64, e, x)?;
                        }
                    }
                    Ty::Struct(fs, _) => {
                        let l = self.m.layout(*t);
                        for (i, x) in v.iter().enumerate() {
                            self.init_const(o, off + l.2[i], fs[i], x)?;
                        }
                    }
                    _ => return Err(Stop::Unsup("const agg".into())),
                }
            }
            _ => {
                let v = self.konst(k, ty)?.s()?;
                let n = self.m.size(ty);
                let w = self.ts.w(v);
                let v = if (w as u64) < n * 8 { self.ts.zext(v, (n * 8) as u16) } else { v };
                for i in 0..n {
                    o.cells[(off + i) as usize] = (v, i as u8);
                }
            }
        }
        Ok(())
    }
    fn undef(&mut self, w: u16) -> T {
        if let Some(&t) = self.undef.get(&w) {
            return t;
        }
        let t = self.ts.fresh("undef", w);
        self.undef.insert(w, t);
        t
    }
    fn undef_v(&mut self, ty: TyId) -> V {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => V::S(self.undef(w as u16)),
            Ty::Ptr | Ty::F64 => V::S(self.undef(64)),
            Ty::F32 => V::S(self.undef(32)),
            Ty::FOther(w) => V::S(self.undef(w as u16)),
            Ty::Array(n, e) | Ty::Vec(n, e) => {
                let x = self.undef_v(e);
                V::A(Rc::new(vec![x; n as usize]))
            }
            Ty::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.undef_v(*f)).collect();
                V::A(Rc::new(v))
            }
            _ => V::N,
        }
    }
    fn zero_v(&mut self, ty: TyId) -> V {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => V::S(if w <= 128 { self.ts.c(0, w as u16) } else { self.wide_zero(w as u16) }),
            Ty::Ptr | Ty::F64 => V::S(self.ts.c(0, 64)),
            Ty::F32 => V::S(self.ts.c(0, 32)),
            Ty::FOther(w) => V::S(self.ts.c(0, w as u16)),
            Ty::Array(n, e) | Ty::Vec(n, e) => {
                let x = self.zero_v(e);
                V::A(Rc::new(vec![x; n as usize]))
            }
            Ty::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.zero_v(*f)).collect();
                V::A(Rc::new(v))
            }
            _ => V::N,
        }
    }
    fn wide_zero(&mut self, w: u16) -> T {
        let mut r = self.ts.c(0, 64);
        let mut left = w - 64;
        while left > 0 {
            let k = left.min(64);
            let z = self.ts.c(0, k);
            r = self.ts.concat(z, r);
            left -= k;
        }
        r
    }
    fn konst(&mut self, k: &Const, ty: TyId) -> R<V> {
        Ok(match k {
            Const::Int(t, v) => {
                let w = match self.m.tys[*t as usize] {
                    Ty::Int(w) => w as u16,
                    _ => 64,
                };
                if w > 128 {
                    let l = self.ts.c(*v, 128);
                    V::S(self.ts.zext(l, w))
                } else {
                    V::S(self.ts.c(*v, w))
                }
            }
            Const::Float(t, b) => {
                let w = if self.m.tys[*t as usize] == Ty::F32 { 32 } else { 64 };
                V::S(self.ts.c(*b as u128, w))
            }
            Const::Null => V::S(self.ts.c(0, 64)),
            Const::Undef(t) => self.undef_v(*t),
            Const::Zero(t) => self.zero_v(*t),
            Const::Agg(t, v) => {
                let tv = self.m.tys[*t as usize].clone();
                let mut o = vec![];
                for (i, x) in v.iter().enumerate() {
                    let et = match &tv {
                        Ty::Array(_, e) | Ty::Vec(_, e) => *e,
                        Ty::Struct(f, _) => f[i],
                        _ => 0,
                    };
                    o.push(self.konst(x, et)?);
                }
                V::A(Rc::new(o))
            }
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::S(self.ts.c(*x as u128, 8))).collect())),
            Const::Global(n) => {
                let a = self.global_addr(n)?;
                V::S(self.ts.c(a as u128, 64))
            }
            Const::Gep(t, b, idx) => {
                let base = self.konst(b, 0)?.s()?;
                let mut ix = vec![];
                for i in idx {
                    let it = match i {
                        Const::Int(t, _) => *t,
                        _ => 0,
                    };
                    ix.push((it, self.konst(i, it)?.s()?));
                }
                V::S(self.gep(*t, base, &ix)?)
            }
            Const::PtrToInt(t, c) => {
                let x = self.konst(c, 0)?.s()?;
                let w = match self.m.tys[*t as usize] {
                    Ty::Int(w) => w as u16,
                    _ => 64,
                };
                V::S(if w < 64 { self.ts.trunc(x, w) } else { self.ts.zext(x, w) })
            }
            Const::IntToPtr(c) => {
                let x = self.konst(c, 0)?.s()?;
                let w = self.ts.w(x);
                V::S(if w < 64 { self.ts.zext(x, 64) } else { self.ts.trunc(x, 64) })
            }
            Const::Cast(op, t, c) => {
                let x = self.konst(c, 0)?;
                let w = match self.m.tys[*t as usize] {
                    Ty::Int(w) => w as u16,
                    Ty::Ptr | Ty::F64 => 64,
                    Ty::F32 => 32,
                    _ => return Ok(x),
                };
                let x = x.s()?;
                V::S(match op.as_str() {
                    "trunc" => self.ts.trunc(x, w),
                    "zext" => self.ts.zext(x, w),
                    "sext" => self.ts.sext(x, w),
                    _ => x,
                })
            }
            Const::Bin(op, _, a, b) => {
                let a = self.konst(a, ty)?.s()?;
                let b = self.konst(b, ty)?.s()?;
                V::S(match op.as_str() {
                    "add" => self.ts.add(a, b),
                    "sub" => self.ts.sub(a, b),
                    "mul" => self.ts.mul(a, b),
                    "xor" => self.ts.xor(a, b),
                    "and" => self.ts.and(a, b),
                    "or" => self.ts.or(a, b),
                    "shl" => self.ts.shl(a, b),
                    _ => self.ts.lshr(a, b),
                })
            }
        })
    }
    fn gep(&mut self, t: TyId, base: T, idx: &[(TyId, T)]) -> R<T> {
        let mut cur = base;
        let mut ty = t;
        for (n, (_, i)) in idx.iter().enumerate() {
            if n == 0 {
                let s = self.m.size(ty);
                cur = self.gep1(cur, *i, s);
            } else {
                match self.m.tys[ty as usize].clone() {
                    Ty::Array(_, e) | Ty::Vec(_, e) => {
                        let s = self.m.size(e);
                        cur = self.gep1(cur, *i, s);
                        ty = e;
                    }
                    Ty::Struct(fs, _) => {
                        let k = self.ts.cv(*i).ok_or(Stop::Unsup("symbolic struct index".into()))? as usize;
                        let o = self.m.layout(ty).2[k];
                        let c = self.ts.c(o as u128, 64);
                        cur = self.ts.add(cur, c);
                        ty = fs[k];
                    }
                    _ => return Err(Stop::Unsup("gep type".into())),
                }
            }
        }
        Ok(cur)
    }
    fn gep1(&mut self, cur: T, i: T, s: u64) -> T {
        let i = if self.ts.w(i) < 64 { self.ts.sext(i, 64) } else { self.ts.trunc(i, 64) };
        let k = self.ts.c(s as u128, 64);
        let o = self.ts.mul(i, k);
        self.ts.add(cur, o)
    }
    fn find_obj(&mut self, st: &mut State, addr: u64, n: u64) -> R<Option<u64>> {
        for _ in 0..2 {
            if let Some((b, o)) = st.mem.range(..=addr).next_back() {
                if addr + n <= *b + o.size && addr >= *b {
                    return Ok(Some(*b));
                }
                if addr >= *b && addr < *b + o.size {
                    return Ok(None);
                }
            }
            if addr < 0x1000_0000 && addr >= 0x10_0000 {
                if !self.materialize(st, addr)? {
                    return Ok(None);
                }
            } else {
                return Ok(None);
            }
        }
        Ok(None)
    }
    fn mem_err(&self, st: &State, addr: u64, n: u64, what: &str) -> Stop {
        let mut d = format!("{} of {} byte(s) at {:#x}", what, n, addr);
        if addr < 0x1000 {
            d.push_str(" (null/dangling)");
        } else if let Some((b, s)) = st.dead.range(..=addr).next_back() {
            if addr < b + s {
                d.push_str(" (freed object)");
            }
        }
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            d.push_str(&format!(" [nearest object {:#x}+{} kind {}]", b, o.size, o.kind));
        }
        Stop::Violation("memory".into(), d, st.model.as_ref().map(|m| (**m).clone()))
    }
    /// resolve to (object base, Some(concrete offset)) or (object, None) when symbolic inside object
    fn resolve(&mut self, st: &mut State, addr: T, n: u64, what: &str) -> R<(u64, Result<u64, Vec<(u64, T)>>)> {
        if st.thr.is_some() {
            self.race(st, addr, n, what == "write")?;
        }
        if let Some(a) = self.ts.cv(addr) {
            let a = a as u64;
            return match self.find_obj(st, a, n)? {
                Some(b) => Ok((b, Ok(a - b))),
                None => {
                    self.ensure_model(st)?;
                    Err(self.mem_err(st, a, n, what))
                }
            };
        }
        self.ensure_model(st)?;
        let Some(m) = st.model.clone() else { return Err(Stop::Undecided("no model for symbolic address".into())) };
        let mut memo = HashMap::new();
        let Some(a) = self.env_eval(addr, &m, &mut memo) else { return Err(Stop::Unsup("address depends on float".into())) };
        let a = a as u64;
        let Some(b) = self.find_obj(st, a, n)? else { return Err(self.mem_err(st, a, n, what)) };
        let size = st.mem[&b].size;
        let kb = self.ts.c(b as u128, 64);
        let off = self.ts.sub(addr, kb);
        let lim = self.ts.c((size - n) as u128, 64);
        let inb = self.ts.ule(off, lim);
        if !self.branch(st, inb)? {
            // this state is now the out-of-bounds one
            st.model = None;
            return Err(Stop::Retry);
        }
        // candidates
        let me = self.ts.meta[off as usize];
        let stride = 1u64 << (me.zeros.trailing_ones()).min(12);
        let lo = me.lo as u64;
        let hi = (me.hi as u64).min(size - n);
        let start = (lo + stride - 1) / stride * stride;
        let mut cands = vec![];
        let mut c = start;
        // element stride from the polynomial: all coefficients share a common divisor
        let st2 = self.poly_stride(off).max(stride);
        let step = st2.max(1);
        let rem = if step > stride { self.ts_const_part(off) % step } else { 0 };
        if step > stride {
            c = lo / step * step + rem;
            while c < lo {
                c += step;
            }
        }
        while c <= hi {
            let kc = self.ts.c(c as u128, 64);
            let e = self.ts.eq(off, kc);
            if self.ts.cv(e) != Some(0) {
                cands.push((c, e));
            }
            if cands.len() > 5000 {
                return Err(Stop::Unsup("symbolic address with too many targets".into()));
            }
            c += step;
        }
        if cands.len() == 1 {
            return Ok((b, Ok(cands[0].0)));
        }
        Ok((b, Err(cands)))
    }
    fn ts_const_part(&self, t: T) -> u64 {
        match self.ts.n(t) {
            Node::Poly(_, k) => *k as u64,
            _ => 0,
        }
    }
    fn poly_stride(&self, t: T) -> u64 {
        // gcd of coefficients when no wrap-around is possible (range known)
        match self.ts.n(t) {
            Node::Poly(ts, _) => {
                let m = self.ts.meta[t as usize];
                if m.hi > 1 << 40 {
                    return 1;
                }
                let mut g = 0u64;
                for (c, ms) in ts.iter() {
                    let c = if *c > 1 << 62 { return 1 } else { *c as u64 };
                    // product range must not wrap
                    let mut h = Some(c as u128);
                    for a in ms.iter() {
                        h = h.and_then(|x| x.checked_mul(self.ts.hi(*a)));
                    }
                    if h.map_or(true, |x| x > 1 << 62) {
                        return 1;
                    }
                    g = gcd(g, c);
                }
                g.max(1)
            }
            _ => 1,
        }
    }
    fn read_scalar(&mut self, o: &Obj, off: u64, n: u64) -> T {
        let cells = &o.cells[off as usize..(off + n) as usize];
        let (t0, i0) = cells[0];
        if t0 != UNINIT && i0 == 0 && self.ts.w(t0) as u64 == n * 8 {
            if cells.iter().enumerate().all(|(k, c)| c.0 == t0 && c.1 as usize == k) {
                return t0;
            }
        }
        // group runs
        let mut parts: Vec<T> = vec![];
        let mut k = 0usize;
        while k < n as usize {
            let (t, i) = cells[k];
            if t == UNINIT {
                let mut j = k + 1;
                while j < n as usize && cells[j].0 == UNINIT {
                    j += 1
                }
                let w = ((j - k) * 8) as u16;
                parts.push(self.ts.fresh("uninit", w));
                k = j;
                continue;
            }
            let mut j = k + 1;
            while j < n as usize && cells[j].0 == t && cells[j].1 as usize == i as usize + (j - k) {
                j += 1
            }
            let x = self.ts.extract(t, i as u16 * 8, ((j - k) * 8) as u16);
            parts.push(x);
            k = j;
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = self.ts.concat(*p, r);
        }
        r
    }
    fn load_scalar(&mut self, st: &mut State, addr: T, n: u64) -> R<T> {
        let (b, r) = self.resolve(st, addr, n, "read")?;
        let o = st.mem[&b].clone();
        match r {
            Ok(off) => Ok(self.read_scalar(&o, off, n)),
            Err(c) => {
                let last = c.last().unwrap().0;
                let mut v = self.read_scalar(&o, last, n);
                for (off, e) in c.iter().rev().skip(1) {
                    let x = self.read_scalar(&o, *off, n);
                    v = self.ts.ite(*e, x, v);
                }
                Ok(v)
            }
        }
    }
    fn store_scalar(&mut self, st: &mut State, addr: T, v: T, n: u64) -> R<()> {
        let (b, r) = self.resolve(st, addr, n, "write")?;
        if st.mem[&b].kind == 3 {
            return Err(Stop::Violation("memory".into(), "write to constant memory".into(), st.model.as_ref().map(|m| (**m).clone())));
        }
        match r {
            Ok(off) => {
                let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                for i in 0..n {
                    o.cells[(off + i) as usize] = (v, i as u8);
                }
            }
            Err(c) => {
                let mut o = (*st.mem[&b]).clone();
                for (off, e) in c {
                    let old = self.read_scalar(&o, off, n);
                    let x = self.ts.ite(e, v, old);
                    for i in 0..n {
                        o.cells[(off + i) as usize] = (x, i as u8);
                    }
                }
                st.mem.insert(b, Rc::new(o));
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: TyId, addr: T) -> R<V> {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => {
                let n = (w as u64 + 7) / 8;
                let x = self.load_scalar(st, addr, n)?;
                Ok(V::S(if (w as u64) < n * 8 { self.ts.trunc(x, w as u16) } else { x }))
            }
            Ty::Ptr | Ty::F64 => Ok(V::S(self.load_scalar(st, addr, 8)?)),
            Ty::F32 => Ok(V::S(self.load_scalar(st, addr, 4)?)),
            Ty::FOther(w) => Ok(V::S(self.load_scalar(st, addr, w as u64 / 8)?)),
            Ty::Array(n, e) | Ty::Vec(n, e) => {
                if let (Ty::Vec(..), Ty::Int(w)) = (&self.m.tys[ty as usize], &self.m.tys[e as usize]) {
                    if w % 8 != 0 {
                        // packed bits
                        let w = *w as u16;
                        let nb = (w as u64 * n + 7) / 8;
                        let x = self.load_scalar(st, addr, nb)?;
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(V::S(self.ts.extract(x, i as u16 * w, w)));
                        }
                        return Ok(V::A(Rc::new(v)));
                    }
                }
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    let k = self.ts.c((i * s) as u128, 64);
                    let a = self.ts.add(addr, k);
                    v.push(self.load(st, e, a)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let l = self.m.layout(ty).2;
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let k = self.ts.c(l[i] as u128, 64);
                    let a = self.ts.add(addr, k);
                    v.push(self.load(st, *f, a)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, ty: TyId, addr: T, v: &V) -> R<()> {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => {
                let n = (w as u64 + 7) / 8;
                let mut x = v.s()?;
                if (w as u64) < n * 8 {
                    x = self.ts.zext(x, (n * 8) as u16);
                }
                self.store_scalar(st, addr, x, n)
            }
            Ty::Ptr | Ty::F64 => self.store_scalar(st, addr, v.s()?, 8),
            Ty::F32 => self.store_scalar(st, addr, v.s()?, 4),
            Ty::FOther(w) => self.store_scalar(st, addr, v.s()?, w as u64 / 8),
            Ty::Array(n, e) | Ty::Vec(n, e) => {
                if let (Ty::Vec(..), Ty::Int(w)) = (&self.m.tys[ty as usize], &self.m.tys[e as usize]) {
                    if w % 8 != 0 {
                        let a = v.a()?.clone();
                        let mut r = a[0].s()?;
                        for x in a[1..].iter() {
                            let x = x.s()?;
                            r = self.ts.concat(x, r);
                        }
                        let nb = (*self.ts.meta.get(r as usize).map(|m| &m.w).unwrap() as u64 + 7) / 8;
                        let r = self.ts.zext(r, (nb * 8) as u16);
                        return self.store_scalar(st, addr, r, nb);
                    }
                }
                let s = self.m.size(e);
                let a = v.a()?.clone();
                for i in 0..n {
                    let k = self.ts.c((i * s) as u128, 64);
                    let ad = self.ts.add(addr, k);
                    self.store(st, e, ad, &a[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let l = self.m.layout(ty).2;
                let a = v.a()?.clone();
                for (i, f) in fs.iter().enumerate() {
                    let k = self.ts.c(l[i] as u128, 64);
                    let ad = self.ts.add(addr, k);
                    self.store(st, *f, ad, &a[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("store type".into())),
        }
    }
    /// pick a concrete value for t, forking the remaining values
    fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(v) = self.ts.cv(t) {
            return Ok(v);
        }
        self.ensure_model(st)?;
        let Some(m) = st.model.clone() else { return Err(Stop::Undecided("no model to concretize".into())) };
        let mut memo = HashMap::new();
        let Some(v) = self.env_eval(t, &m, &mut memo) else { return Err(Stop::Unsup("concretize float".into())) };
        let w = self.ts.w(t);
        let k = self.ts.c(v, w);
        let e = self.ts.eq(t, k);
        if self.branch(st, e)? {
            Ok(v)
        } else {
            Err(Stop::Retry)
        }
    }
    fn copy_mem(&mut self, st: &mut State, d: T, s: T, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.resolve(st, s, n, "read")?;
        let (db, dd) = self.resolve(st, d, n, "write")?;
        let (Ok(so), Ok(dd)) = (so, dd) else {
            // concretise the addresses
            self.concretize(st, s)?;
            self.concretize(st, d)?;
            // values are now determined by the path; use them
            let sv = self.concretize(st, s)? as u64;
            let dv = self.concretize(st, d)? as u64;
            let (a, b) = (self.ts.c(sv as u128, 64), self.ts.c(dv as u128, 64));
            return self.copy_mem(st, b, a, n);
        };
        if st.mem[&db].kind == 3 {
            return Err(Stop::Violation("memory".into(), "copy into constant memory".into(), None));
        }
        let src: Vec<(T, u8)> = st.mem[&sb].cells[so as usize..(so + n) as usize].to_vec();
        let o = Rc::make_mut(st.mem.get_mut(&db).unwrap());
        o.cells[dd as usize..(dd + n) as usize].copy_from_slice(&src);
        Ok(())
    }

    // ---------------- execution ----------------
    pub fn run(&mut self, entry: &str) {
        let Some(&id) = self.m.nameidx.get(entry) else {
            self.rep.unsup.push(format!("no such harness {}", entry));
            return;
        };
        let Some(f) = self.funcs.get(&id).cloned() else {
            self.rep.unsup.push(format!("harness {} has no body", entry));
            return;
        };
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            dead: BTreeMap::new(),
            next: 0x4000_0000,
            path: vec![],
            facts: vec![],
            model: Some(Rc::new(Model::new())),
            inputs: vec![],
            panic_ok: false,
            steps: 0,
            watch: vec![],
            hook_done: false,
            in_hook: 0,
            native: BTreeMap::new(),
            live_heap: 0,
            notes: vec![],
            thr: None,
        };
        self.push_frame(&mut st, f, vec![], None, 0);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.rep.violations.len() >= self.o.max_viol {
                self.rep.unexplored += 1 + self.work.len() as u64;
                break;
            }
            if self.rep.paths + self.rep.panics_ok + self.rep.infeasible >= self.o.max_paths || self.start.elapsed().as_secs() > self.o.total_secs {
                self.rep.unexplored += 1 + self.work.len() as u64;
                self.rep.undecided.push(format!("exploration limit reached with {} paths left", 1 + self.work.len()));
                break;
            }
            self.run_path(st);
        }
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, ret: Option<u32>, hook: u8) {
        let mut regs = vec![V::N; f.nregs as usize];
        for (i, (_, r)) in f.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*r as usize] = a.clone();
            }
        }
        if !self.rep.funcs.contains(&f.name) {
            self.rep.funcs.insert(f.name.clone());
        }
        st.frames.push(Frame { func: f, block: 0, ip: 0, prev: 0, regs, ret, allocas: vec![], hook, args: vec![] });
    }
    fn run_path(&mut self, mut st: State) {
        loop {
            if st.steps % 4096 == 0 && self.start.elapsed().as_secs() > self.o.total_secs {
                self.rep.undecided.push("time limit inside a path".into());
                self.rep.unexplored += 1;
                return;
            }
            if st.steps > self.o.max_steps {
                self.rep.undecided.push("step limit inside a path".into());
                self.rep.unexplored += 1;
                return;
            }
            st.steps += 1;
            self.rep.steps += 1;
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::End) => {
                    self.rep.max_inputs = self.rep.max_inputs.max(st.inputs.len());
                    if self.o.concrete.is_some() {
                        let notes = st.notes.clone();
                        for (k, t) in notes {
                            let v = self.ts.cv(t).unwrap_or(u128::MAX);
                            self.rep.outs.push((k, v));
                        }
                    }
                    return;
                }
                Err(Stop::Violation(k, msg, m)) => {
                    let m = match m {
                        Some(m) => m,
                        None => {
                            st.model = None;
                            if self.ensure_model(&mut st).is_err() {
                                return;
                            }
                            st.model.as_ref().map(|m| (**m).clone()).unwrap_or_default()
                        }
                    };
                    // a violation on a path whose feasibility is uncertain must be confirmed
                    let p = st.path.clone();
                    match self.model_ok(&p, &m) {
                        Some(true) => {
                            let v = self.violated(&st, &k, &msg, &m);
                            self.rep.violations.push(v);
                        }
                        _ => self.rep.undecided.push(format!("unconfirmed path for {} {}", k, msg)),
                    }
                    return;
                }
                Err(Stop::Unsup(e)) => {
                    let stack: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.func.name.clone()).collect();
                    self.rep.unsup.push(format!("{} in {:?}", e, stack));
                    self.rep.unexplored += 1;
                    return;
                }
                Err(Stop::Undecided(e)) | Err(Stop::Limit(e)) => {
                    self.rep.undecided.push(e);
                    self.rep.unexplored += 1;
                    return;
                }
            }
        }
    }
    fn get(&mut self, st: &State, o: &Opnd, ty: TyId) -> R<V> {
        match o {
            Opnd::Reg(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opnd::K(k) => {
                let f = st.frames.last().unwrap().func.clone();
                let key = (Rc::as_ptr(&f) as usize, *k);
                if let Some(v) = self.kcache.get(&key) {
                    return Ok(v.clone());
                }
                let v = self.konst(&f.consts[*k as usize], ty)?;
                self.kcache.insert(key, v.clone());
                Ok(v)
            }
        }
    }
    fn gs(&mut self, st: &State, o: &Opnd, ty: TyId) -> R<T> {
        match self.get(st, o, ty)? {
            V::S(t) => Ok(t),
            V::N => Err(Stop::Unsup("use of unset register".into())),
            _ => Err(Stop::Unsup("scalar expected".into())),
        }
    }
    /// does the condition compare real-valued terms the solver knows nothing about?
    fn opaque_cond(&self, c: T) -> bool {
        match self.ts.n(c) {
            Node::F(..) => true,
            Node::Not(a) => self.opaque_cond(*a),
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => self.opaque_cond(*a) || self.opaque_cond(*b),
            _ => false,
        }
    }
    /// blocks that only compute values (may be executed speculatively)
    fn pure_block(&self, f: &Func, b: u32) -> bool {
        f.blocks[b as usize].insts.iter().all(|(_, i)| match i {
            Inst::Bin(op, ..) => !matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem),
            Inst::FNeg(..) | Inst::Cast(..) | Inst::ICmp(..) | Inst::FCmp(..) | Inst::Select(..) | Inst::Gep(..) | Inst::Phi(..)
            | Inst::ExtractValue(..) | Inst::InsertValue(..) | Inst::ExtractElem(..) | Inst::InsertElem(..) | Inst::Shuffle(..)
            | Inst::Freeze(..) | Inst::Br(..) | Inst::CondBr(..) => true,
            Inst::Call(Callee::Direct(id), ..) => {
                let n = &self.m.names[*id as usize];
                n.starts_with("llvm.") && !n.contains("mem") && !n.contains("assume")
            }
            _ => false,
        })
    }
    fn succ(&self, f: &Func, b: u32) -> Vec<u32> {
        match f.blocks[b as usize].insts.last().map(|x| &x.1) {
            Some(Inst::Br(t)) => vec![*t],
            Some(Inst::CondBr(_, t, e)) => vec![*t, *e],
            _ => vec![],
        }
    }
    /// first block where all short side-effect-free continuations of both targets meet again
    fn find_join(&self, f: &Func, from: u32, a: u32, b: u32) -> Option<u32> {
        fn paths(s: &Eng, f: &Func, from: u32, b: u32, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
            if cur.contains(&b) || b == from || out.len() > 24 {
                out.push(cur.clone());
                return;
            }
            cur.push(b);
            if cur.len() >= 8 || !s.pure_block(f, b) {
                out.push(cur.clone());
            } else {
                let ss = s.succ(f, b);
                if ss.is_empty() {
                    out.push(cur.clone());
                }
                for x in ss {
                    paths(s, f, from, x, cur, out);
                }
            }
            cur.pop();
        }
        let mut out = vec![];
        paths(self, f, from, a, &mut vec![], &mut out);
        paths(self, f, from, b, &mut vec![], &mut out);
        let first = out.first()?.clone();
        first.into_iter().find(|j| out.iter().all(|p| p.contains(j)))
    }
    /// execute both sides of a small side-effect-free region and merge them with ite
    fn merge_region(&mut self, st: &mut State, c: T, a: u32, b: u32) -> bool {
        let fr = st.frames.last().unwrap();
        let f = fr.func.clone();
        let key = (Rc::as_ptr(&f) as usize, fr.block);
        let j = match self.joins.get(&key) {
            Some(j) => *j,
            None => {
                let j = self.find_join(&f, fr.block, a, b);
                self.joins.insert(key, j);
                j
            }
        };
        let Some(j) = j else { return false };
        let saved = fr.clone();
        let (work, path, facts, depth) = (self.work.len(), st.path.len(), st.facts.len(), st.frames.len());
        let phis: Vec<u32> = f.blocks[j as usize].insts.iter().take_while(|x| matches!(x.1, Inst::Phi(..))).map(|x| x.0.unwrap()).collect();
        let mut res: Vec<Vec<V>> = vec![];
        let mut ok = true;
        for side in [a, b] {
            *st.frames.last_mut().unwrap() = saved.clone();
            let mut r = self.goto(st, side);
            let mut n = 0;
            while r.is_ok() && n < 500 && st.frames.last().unwrap().block != j {
                r = self.step(st);
                n += 1;
            }
            if r.is_err() || n >= 500 || self.work.len() != work || st.path.len() != path || st.facts.len() != facts || st.frames.len() != depth {
                ok = false;
                break;
            }
            let regs = &st.frames.last().unwrap().regs;
            res.push(phis.iter().map(|p| regs[*p as usize].clone()).collect());
        }
        let mut merged = vec![];
        if ok {
            for (x, y) in res[0].iter().zip(res[1].iter()) {
                match self.vite(c, x, y) {
                    Ok(v) => merged.push(v),
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
        }
        if !ok {
            self.work.truncate(work);
            st.path.truncate(path);
            st.facts.truncate(facts);
            st.frames.truncate(depth);
            *st.frames.last_mut().unwrap() = saved;
            self.joins.insert(key, None);
            return false;
        }
        let fr = st.frames.last_mut().unwrap();
        *fr = saved;
        fr.prev = fr.block;
        fr.block = j;
        fr.ip = phis.len() as u32;
        for (p, v) in phis.iter().zip(merged) {
            fr.regs[*p as usize] = v;
        }
        true
    }
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.block;
        fr.block = b;
        fr.ip = 0;
        // phis
        let f = fr.func.clone();
        let prev = fr.prev;
        let mut news: Vec<(u32, V)> = vec![];
        let mut n = 0;
        for (dst, i) in &f.blocks[b as usize].insts {
            let Inst::Phi(t, v) = i else { break };
            n += 1;
            let Some((o, _)) = v.iter().find(|(_, p)| *p == prev) else { return Err(Stop::Unsup("phi edge".into())) };
            let x = self.get(st, o, *t)?;
            news.push((dst.unwrap(), x));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in news {
            fr.regs[d as usize] = v;
        }
        fr.ip = n;
        Ok(())
    }
    fn fwidth(&self, t: TyId) -> u16 {
        match self.m.tys[t as usize] {
            Ty::F32 => 32,
            Ty::Int(w) => w as u16,
            Ty::FOther(w) => w as u16,
            _ => 64,
        }
    }
    fn map2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, T, T) -> R<T>) -> R<V> {
        match (a, b) {
            (V::S(x), V::S(y)) => Ok(V::S(f(self, *x, *y)?)),
            (V::A(x), V::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.map2(p, q, f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsup("shape mismatch / unset register".into())),
        }
    }
    fn map1(&mut self, a: &V, f: &mut dyn FnMut(&mut Self, T) -> R<T>) -> R<V> {
        match a {
            V::S(x) => Ok(V::S(f(self, *x)?)),
            V::A(x) => {
                let mut v = Vec::with_capacity(x.len());
                for p in x.iter() {
                    v.push(self.map1(p, f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            V::N => Err(Stop::Unsup("unset register".into())),
        }
    }
    fn bin(&mut self, st: &mut State, op: Bin, a: T, b: T) -> R<T> {
        let w = self.ts.w(a);
        Ok(match op {
            Bin::Add => self.ts.add(a, b),
            Bin::Sub => self.ts.sub(a, b),
            Bin::Mul => self.ts.mul(a, b),
            Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem => {
                if self.ts.lo(b) == 0 {
                    let z = self.ts.c(0, w);
                    let e = self.ts.eq(b, z);
                    if self.branch(st, e)? {
                        return Err(Stop::Violation("ub".into(), "division by zero".into(), None));
                    }
                }
                match op {
                    Bin::UDiv => self.ts.udiv(a, b),
                    Bin::SDiv => self.ts.sdiv(a, b),
                    Bin::URem => self.ts.urem(a, b),
                    _ => self.ts.srem(a, b),
                }
            }
            Bin::Shl => self.ts.shl(a, b),
            Bin::LShr => self.ts.lshr(a, b),
            Bin::AShr => self.ts.ashr(a, b),
            Bin::And => self.ts.and(a, b),
            Bin::Or => self.ts.or(a, b),
            Bin::Xor => self.ts.xor(a, b),
            Bin::FAdd => self.ts.fop(FOp::Add, &[a, b], w),
            Bin::FSub => self.ts.fop(FOp::Sub, &[a, b], w),
            Bin::FMul => self.ts.fop(FOp::Mul, &[a, b], w),
            Bin::FDiv => self.ts.fop(FOp::Div, &[a, b], w),
            Bin::FRem => self.ts.fop(FOp::Rem, &[a, b], w),
        })
    }
    fn icmp(&mut self, p: Pred, a: T, b: T) -> T {
        match p {
            Pred::Eq => self.ts.eq(a, b),
            Pred::Ne => {
                let e = self.ts.eq(a, b);
                self.ts.not(e)
            }
            Pred::Ult => self.ts.ult(a, b),
            Pred::Ule => self.ts.ule(a, b),
            Pred::Ugt => self.ts.ult(b, a),
            Pred::Uge => self.ts.ule(b, a),
            Pred::Slt => self.ts.slt(a, b),
            Pred::Sle => self.ts.sle(a, b),
            Pred::Sgt => self.ts.slt(b, a),
            Pred::Sge => self.ts.sle(b, a),
        }
    }
    fn fcmp(&mut self, p: &str, a: T, b: T) -> R<T> {
        let uno = self.ts.fop(FOp::CmpUno, &[a, b], 1);
        let base = match p {
            "true" => return Ok(self.ts.tru()),
            "false" => return Ok(self.ts.fals()),
            "uno" => return Ok(uno),
            "ord" => return Ok(self.ts.not(uno)),
            "oeq" | "ueq" => self.ts.fop(FOp::CmpOeq, &[a, b], 1),
            "olt" | "ult" => self.ts.fop(FOp::CmpOlt, &[a, b], 1),
            "ole" | "ule" => self.ts.fop(FOp::CmpOle, &[a, b], 1),
            "ogt" | "ugt" => self.ts.fop(FOp::CmpOlt, &[b, a], 1),
            "oge" | "uge" => self.ts.fop(FOp::CmpOle, &[b, a], 1),
            "one" | "une" => {
                let e = self.ts.fop(FOp::CmpOeq, &[a, b], 1);
                if p == "une" {
                    return Ok(self.ts.not(e));
                }
                let l = self.ts.fop(FOp::CmpOlt, &[a, b], 1);
                let g = self.ts.fop(FOp::CmpOlt, &[b, a], 1);
                return Ok(self.ts.or(l, g));
            }
            _ => return Err(Stop::Unsup(format!("fcmp {}", p))),
        };
        Ok(if p.starts_with('u') { self.ts.or(base, uno) } else { base })
    }
    fn flatten(&mut self, v: &V) -> R<T> {
        match v {
            V::S(t) => Ok(*t),
            V::A(a) => {
                let mut r: Option<T> = None;
                for x in a.iter() {
                    let t = self.flatten(x)?;
                    r = Some(match r {
                        None => t,
                        Some(p) => self.ts.concat(t, p),
                    });
                }
                r.ok_or(Stop::Unsup("empty".into()))
            }
            V::N => Err(Stop::Unsup("unset".into())),
        }
    }
    fn cast(&mut self, c: Cast, from: TyId, x: &V, to: TyId) -> R<V> {
        if c == Cast::BitCast {
            let (tf, tt) = (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone());
            if !matches!(tf, Ty::Vec(..)) && !matches!(tt, Ty::Vec(..)) {
                return Ok(x.clone());
            }
            let flat = self.flatten(x)?;
            return Ok(match tt {
                Ty::Vec(n, e) => {
                    let w = self.fwidth(e);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(V::S(self.ts.extract(flat, i as u16 * w, w)));
                    }
                    V::A(Rc::new(v))
                }
                _ => V::S(flat),
            });
        }
        let et = match self.m.tys[to as usize] {
            Ty::Vec(_, e) => e,
            _ => to,
        };
        let w = self.fwidth(et);
        self.map1(x, &mut |s, t| {
            Ok(match c {
                Cast::ZExt => s.ts.zext(t, w),
                Cast::SExt => s.ts.sext(t, w),
                Cast::Trunc => s.ts.trunc(t, w),
                Cast::PtrToInt | Cast::IntToPtr => {
                    if s.ts.w(t) < w {
                        s.ts.zext(t, w)
                    } else {
                        s.ts.trunc(t, w)
                    }
                }
                Cast::UiToFp => s.ts.fop(FOp::UiToFp, &[t], w),
                Cast::SiToFp => s.ts.fop(FOp::SiToFp, &[t], w),
                Cast::FpToUi => s.ts.fop(FOp::FpToUi, &[t], w),
                Cast::FpToSi => s.ts.fop(FOp::FpToSi, &[t], w),
                Cast::FpTrunc => s.ts.fop(FOp::FpTrunc, &[t], w),
                Cast::FpExt => s.ts.fop(FOp::FpExt, &[t], w),
                Cast::BitCast => t,
            })
        })
    }
    fn vite(&mut self, c: T, a: &V, b: &V) -> R<V> {
        match self.ts.cv(c) {
            Some(1) => return Ok(a.clone()),
            Some(_) => return Ok(b.clone()),
            None => {}
        }
        self.map2(a, b, &mut |s, x, y| Ok(s.ts.ite(c, x, y)))
    }
    fn set_atomic(&mut self, st: &mut State, on: bool) {
        if let Some(t) = st.thr.as_mut() {
            Rc::make_mut(t).atomic = on;
        }
    }
    fn set(&mut self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    /// atomics on watched words: run the environment hook first
    fn hook(&mut self, st: &mut State, addr: T) -> R<bool> {
        if st.thr.is_some() {
            self.sched_point(st, addr)?;
            return Ok(false);
        }
        if st.watch.is_empty() || st.in_hook > 0 {
            return Ok(false);
        }
        if st.hook_done {
            st.hook_done = false;
            return Ok(true);
        }
        let Some(a) = self.ts.cv(addr) else { return Ok(false) };
        let a = a as u64;
        let w = st.watch.iter().find(|w| a >= w.0 && a < w.0 + w.1).copied();
        if let Some((_, _, before, _)) = w {
            if before != 0 {
                let id = self.fn_by_addr[&before];
                let f = self.funcs.get(&id).cloned().ok_or(Stop::Unsup("hook body".into()))?;
                st.in_hook += 1;
                self.push_frame(st, f, vec![], None, 1);
                return Err(Stop::Retry);
            }
            return Ok(true);
        }
        Ok(false)
    }
    fn watched(&self, st: &State, addr: T) -> Option<u64> {
        let a = self.ts.cv(addr)? as u64;
        st.watch.iter().any(|w| a >= w.0 && a < w.0 + w.1).then_some(a)
    }
    /// a choice of the schedule: an input like any other, made concrete by forking
    fn sched_choice(&mut self, st: &mut State, n: u64, weak: bool) -> R<u64> {
        let g = |st: &State| if weak { st.thr.as_ref().unwrap().weak } else { st.thr.as_ref().unwrap().pending };
        let t = match g(st) {
            Some(t) => t,
            None => {
                let k = st.inputs.len();
                let t = if let Some(cv) = &self.o.concrete {
                    let v = cv.get(k).copied().unwrap_or(0);
                    self.ts.c(v, 64)
                } else {
                    let key = (k, 8u16, 0u64, n - 1);
                    let v = match self.inputs.get(&key) {
                        Some(t) => *t,
                        None => {
                            let t = self.ts.var(format!("in{}", k), 8, 0, n as u128 - 1, true);
                            self.inputs.insert(key, t);
                            t
                        }
                    };
                    self.ts.zext(v, 64)
                };
                st.inputs.push(t);
                let th = Rc::make_mut(st.thr.as_mut().unwrap());
                if weak { th.weak = Some(t) } else { th.pending = Some(t) }
                t
            }
        };
        let v = self.concretize(st, t)? as u64;
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        if !weak {
            th.pending = None;
        }
        Ok(v)
    }
    fn switch_to(&mut self, st: &mut State, t: usize) {
        let fr = std::mem::take(&mut st.frames);
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        let c = th.cur;
        th.frames[c] = fr;
        th.cur = t;
        st.frames = std::mem::take(&mut th.frames[t]);
    }
    /// who goes on? None: everybody has finished
    fn pick(&mut self, st: &mut State) -> R<()> {
        let th = st.thr.as_ref().unwrap();
        let n = th.done.len();
        if let Some(t) = (0..n).find(|t| !th.done[*t] && !th.at_point[*t]) {
            if t != th.cur {
                self.switch_to(st, t);
            }
            return Ok(());
        }
        let alive: Vec<usize> = (0..n).filter(|t| !th.done[*t]).collect();
        if alive.is_empty() {
            let th = st.thr.take().unwrap();
            st.frames = th.main.clone();
            st.frames.last_mut().unwrap().ip += 1;
            return Ok(());
        }
        let cur = alive.iter().position(|t| *t == th.cur);
        let k = if th.preempt == 0 && cur.is_some() { cur.unwrap() } else if alive.len() == 1 { 0 } else { self.sched_choice(st, alive.len() as u64, false)? as usize };
        let t = alive[k.min(alive.len() - 1)];
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        if cur.is_some() && t != th.cur {
            th.preempt -= 1;
        }
        th.at_point[t] = false;
        th.go = true;
        th.ops[t] += 1;
        if th.ops[t] > th.budget {
            // a waiting thread: longer waits are outside the bounds
            self.rep.infeasible += 1;
            return Err(Stop::End);
        }
        if t != th.cur {
            self.switch_to(st, t);
        }
        Ok(())
    }
    fn sched_point(&mut self, st: &mut State, addr: T) -> R<()> {
        if self.watched(st, addr).is_none() {
            return Ok(());
        }
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        if th.go {
            return Ok(());
        }
        let c = th.cur;
        th.at_point[c] = true;
        self.pick(st)?;
        Err(Stop::Retry)
    }
    /// the current thread is over
    fn thread_end(&mut self, st: &mut State) -> R<()> {
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        let c = th.cur;
        th.done[c] = true;
        th.go = false;
        // a step without frames of its own: choose until somebody has some
        self.pick(st)
    }
    /// bookkeeping of an atomic access by the current thread
    fn atomic_done(&mut self, st: &mut State, addr: T, ord: u8, load: bool, store: bool) {
        if st.thr.is_none() {
            return;
        }
        let Some(a) = self.watched(st, addr) else { return };
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        th.go = false;
        th.weak = None;
        let c = th.cur;
        if self.o.trace {
            eprintln!("SCHED thread {} {} {:#x} order {}", c, match (load, store) { (true, true) => "updates", (true, false) => "reads", _ => "writes" }, a, ord);
        }
        th.clk[c][c] += 1;
        let n = th.clk.len();
        if load {
            let r = th.rel.entry(a).or_insert_with(|| vec![0; n]).clone();
            if ord & 1 == 1 {
                join(&mut th.clk[c], &r);
            } else {
                join(&mut th.pend_acq[c], &r);
            }
        }
        if store {
            let v = if ord & 2 == 2 { th.clk[c].clone() } else { th.fence_rel[c].clone() };
            let e = th.rel.entry(a).or_insert_with(|| vec![0; n]);
            if load {
                join(e, &v);
            } else {
                *e = v;
            }
        }
    }
    /// plain accesses to watched memory must be ordered
    fn race(&mut self, st: &mut State, addr: T, n: u64, write: bool) -> R<()> {
        if st.thr.as_ref().unwrap().atomic {
            return Ok(());
        }
        let Some(a) = self.ts.cv(addr) else { return Ok(()) };
        let a = a as u64;
        let Some(w) = st.watch.iter().find(|w| a < w.0 + w.1 && a + n > w.0).copied() else { return Ok(()) };
        let mut bad = false;
        let th = Rc::make_mut(st.thr.as_mut().unwrap());
        let c = th.cur;
        let clk = th.clk[c].clone();
        for b in a.max(w.0)..(a + n).min(w.0 + w.1) {
            let e = th.data.entry(b).or_insert_with(|| (None, vec![0; clk.len()]));
            bad |= matches!(e.0, Some((t, k)) if k > clk[t]);
            if write {
                bad |= e.1.iter().zip(&clk).any(|(r, k)| r > k);
                *e = (Some((c, clk[c])), vec![0; clk.len()]);
            } else {
                e.1[c] = clk[c];
            }
        }
        if bad {
            self.ensure_model(st)?;
            return Err(Stop::Violation("race".into(), format!("unordered {} of shared data", if write { "write" } else { "read" }), st.model.as_ref().map(|m| (**m).clone())));
        }
        Ok(())
    }
    fn hook_after(&mut self, st: &mut State, addr: T) -> R<()> {
        let Some(a) = self.ts.cv(addr) else { return Ok(()) };
        let a = a as u64;
        let w = st.watch.iter().find(|w| a >= w.0 && a < w.0 + w.1).copied();
        if let Some((_, _, _, after)) = w {
            if after != 0 {
                let id = self.fn_by_addr[&after];
                let f = self.funcs.get(&id).cloned().ok_or(Stop::Unsup("hook body".into()))?;
                st.in_hook += 1;
                self.push_frame(st, f, vec![], None, 2);
            }
        }
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.func.clone();
        let (bi, ip) = (fr.block as usize, fr.ip as usize);
        if ip == 0 && self.rep.cov.insert((Rc::as_ptr(&f) as usize, bi as u32)) {
            self.rep.locs.extend(f.blocks[bi].dbg.iter().copied());
        }
        let Some((dst, inst)) = f.blocks[bi].insts.get(ip) else { return Err(Stop::Unsup("fell off block".into())) };
        let dst = *dst;
        match inst {
            Inst::Bin(op, t, a, b) => {
                let a = self.get(st, a, *t)?;
                let b = self.get(st, b, *t)?;
                let v = match (&a, &b) {
                    (V::S(x), V::S(y)) => V::S(self.bin(st, *op, *x, *y)?),
                    (V::A(x), V::A(y)) => {
                        let mut v = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            v.push(V::S(self.bin(st, *op, p.s()?, q.s()?)?));
                        }
                        V::A(Rc::new(v))
                    }
                    _ => return Err(Stop::Unsup("bin operands".into())),
                };
                self.set(st, dst, v);
            }
            Inst::FNeg(t, a) => {
                let a = self.get(st, a, *t)?;
                let v = self.map1(&a, &mut |s, x| {
                    let w = s.ts.w(x);
                    Ok(s.ts.fop(FOp::Neg, &[x], w))
                })?;
                self.set(st, dst, v);
            }
            Inst::Cast(c, from, x, to) => {
                let x = self.get(st, x, *from)?;
                let v = self.cast(*c, *from, &x, *to)?;
                self.set(st, dst, v);
            }
            Inst::ICmp(p, t, a, b) => {
                let a = self.get(st, a, *t)?;
                let b = self.get(st, b, *t)?;
                let p = *p;
                let v = self.map2(&a, &b, &mut |s, x, y| Ok(s.icmp(p, x, y)))?;
                self.set(st, dst, v);
            }
            Inst::FCmp(p, t, a, b) => {
                let a = self.get(st, a, *t)?;
                let b = self.get(st, b, *t)?;
                let v = self.map2(&a, &b, &mut |s, x, y| s.fcmp(p, x, y))?;
                self.set(st, dst, v);
            }
            Inst::Select(t, c, a, b, vc) => {
                let c = self.get(st, c, 0)?;
                let a = self.get(st, a, *t)?;
                let b = self.get(st, b, *t)?;
                let v = if *vc {
                    let (c, a, b) = (c.a()?.clone(), a.a()?.clone(), b.a()?.clone());
                    let mut v = vec![];
                    for i in 0..c.len() {
                        v.push(self.vite(c[i].s()?, &a[i], &b[i])?);
                    }
                    V::A(Rc::new(v))
                } else {
                    let cs = c.s()?;
                    // selecting between pointers: fork, so that addresses stay concrete
                    if matches!(self.m.tys[*t as usize], Ty::Ptr) && self.ts.cv(cs).is_none() {
                        let r = self.branch(st, cs)?;
                        if r {
                            a
                        } else {
                            b
                        }
                    } else {
                        self.vite(cs, &a, &b)?
                    }
                };
                self.set(st, dst, v);
            }
            Inst::Load(t, p, atomic) => {
                let p = self.gs(st, p, 0)?;
                let h = if atomic.is_some() { self.hook(st, p)? } else { false };
                self.set_atomic(st, atomic.is_some());
                let v = self.load(st, *t, p)?;
                self.set_atomic(st, false);
                self.set(st, dst, v);
                if let Some(o) = atomic {
                    self.atomic_done(st, p, *o, true, false);
                }
                if h {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.hook_after(st, p);
                }
            }
            Inst::Store(t, v, p, atomic) => {
                let p = self.gs(st, p, 0)?;
                let v = self.get(st, v, *t)?;
                let h = if atomic.is_some() { self.hook(st, p)? } else { false };
                self.set_atomic(st, atomic.is_some());
                self.store(st, *t, p, &v)?;
                self.set_atomic(st, false);
                if let Some(o) = atomic {
                    self.atomic_done(st, p, *o, false, true);
                }
                if h {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.hook_after(st, p);
                }
            }
            Inst::Alloca(t, n, al) => {
                let n = self.gs(st, n, 0)?;
                let n = self.ts.cv(n).ok_or(Stop::Unsup("symbolic alloca".into()))? as u64;
                let s = self.m.size(*t) * n;
                let b = self.alloc(st, s, *al, 1);
                st.frames.last_mut().unwrap().allocas.push(b);
                let v = V::S(self.ts.c(b as u128, 64));
                self.set(st, dst, v);
            }
            Inst::Gep(t, b, idx) => {
                let base = self.gs(st, b, 0)?;
                let mut ix = Vec::with_capacity(idx.len());
                for (it, i) in idx {
                    ix.push((*it, self.gs(st, i, *it)?));
                }
                let v = self.gep(*t, base, &ix)?;
                self.set(st, dst, V::S(v));
            }
            Inst::Phi(..) => return Err(Stop::Unsup("phi".into())),
            Inst::Call(c, rt, args) => return self.call(st, c, *rt, args, dst),
            Inst::ExtractValue(t, a, ix) => {
                let mut v = self.get(st, a, *t)?;
                for i in ix {
                    let n = v.a()?[*i as usize].clone();
                    v = n;
                }
                self.set(st, dst, v);
            }
            Inst::InsertValue(t, a, et, e, ix) => {
                let a = self.get(st, a, *t)?;
                let e = self.get(st, e, *et)?;
                fn ins(a: &V, ix: &[u32], e: V) -> R<V> {
                    if ix.is_empty() {
                        return Ok(e);
                    }
                    let mut v = (**a.a()?).clone();
                    v[ix[0] as usize] = ins(&v[ix[0] as usize], &ix[1..], e)?;
                    Ok(V::A(Rc::new(v)))
                }
                let v = ins(&a, ix, e)?;
                self.set(st, dst, v);
            }
            Inst::ExtractElem(t, a, i) => {
                let a = self.get(st, a, *t)?;
                let i = self.gs(st, i, 0)?;
                let a = a.a()?.clone();
                let v = match self.ts.cv(i) {
                    Some(k) => a[k as usize].clone(),
                    None => {
                        let mut r = a[a.len() - 1].clone();
                        for k in (0..a.len() - 1).rev() {
                            let kk = self.ts.c(k as u128, self.ts.w(i));
                            let e = self.ts.eq(i, kk);
                            r = self.vite(e, &a[k], &r)?;
                        }
                        r
                    }
                };
                self.set(st, dst, v);
            }
            Inst::InsertElem(t, a, e, i) => {
                let a = self.get(st, a, *t)?;
                let et = match self.m.tys[*t as usize] {
                    Ty::Vec(_, e) => e,
                    _ => 0,
                };
                let e = self.get(st, e, et)?;
                let i = self.gs(st, i, 0)?;
                let k = self.ts.cv(i).ok_or(Stop::Unsup("symbolic insertelement".into()))?;
                let mut v = (**a.a()?).clone();
                v[k as usize] = e;
                self.set(st, dst, V::A(Rc::new(v)));
            }
            Inst::Shuffle(t, a, b, m) => {
                let a = self.get(st, a, *t)?;
                let b = self.get(st, b, *t)?;
                let et = match self.m.tys[*t as usize] {
                    Ty::Vec(_, e) => e,
                    _ => 0,
                };
                let (a, b) = (a.a()?.clone(), b.a()?.clone());
                let mut v = vec![];
                for i in m {
                    v.push(match i {
                        None => self.undef_v(et),
                        Some(i) if (*i as usize) < a.len() => a[*i as usize].clone(),
                        Some(i) => b[*i as usize - a.len()].clone(),
                    });
                }
                self.set(st, dst, V::A(Rc::new(v)));
            }
            Inst::Freeze(t, a) => {
                let v = self.get(st, a, *t)?;
                self.set(st, dst, v);
            }
            Inst::AtomicRmw(op, t, p, v, ord) => {
                let p = self.gs(st, p, 0)?;
                let h = self.hook(st, p)?;
                self.set_atomic(st, true);
                let old = self.load(st, *t, p)?.s()?;
                let x = self.gs(st, v, *t)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.ts.add(old, x),
                    "sub" => self.ts.sub(old, x),
                    "and" => self.ts.and(old, x),
                    "or" => self.ts.or(old, x),
                    "xor" => self.ts.xor(old, x),
                    "nand" => {
                        let a = self.ts.and(old, x);
                        self.ts.not(a)
                    }
                    "umax" | "umin" => {
                        let c = self.ts.ult(old, x);
                        if op == "umax" {
                            self.ts.ite(c, x, old)
                        } else {
                            self.ts.ite(c, old, x)
                        }
                    }
                    "max" | "min" => {
                        let c = self.ts.slt(old, x);
                        if op == "max" {
                            self.ts.ite(c, x, old)
                        } else {
                            self.ts.ite(c, old, x)
                        }
                    }
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, *t, p, &V::S(new))?;
                self.set_atomic(st, false);
                self.atomic_done(st, p, *ord, true, true);
                self.set(st, dst, V::S(old));
                if h {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.hook_after(st, p);
                }
            }
            Inst::CmpXchg(t, p, a, b, weak, so, fo) => {
                let p = self.gs(st, p, 0)?;
                let h = self.hook(st, p)?;
                let con = st.thr.is_some() && self.watched(st, p).is_some();
                let mut lost = false;
                if con && *weak && (st.thr.as_ref().unwrap().spurious < 1 || st.thr.as_ref().unwrap().weak.is_some()) {
                    // may fail without a reason
                    lost = self.sched_choice(st, 2, true)? == 1;
                }
                self.set_atomic(st, true);
                let old = self.load(st, *t, p)?.s()?;
                let a = self.gs(st, a, *t)?;
                let b = self.gs(st, b, *t)?;
                let mut e = self.ts.eq(old, a);
                if con {
                    let r = self.branch(st, e)?;
                    e = self.ts.c((r && !lost) as u128, 1);
                    if lost {
                        Rc::make_mut(st.thr.as_mut().unwrap()).spurious += 1;
                    }
                }
                let new = self.ts.ite(e, b, old);
                self.store(st, *t, p, &V::S(new))?;
                self.set_atomic(st, false);
                if con {
                    let ok = self.ts.cv(e) == Some(1);
                    self.atomic_done(st, p, if ok { *so } else { *fo }, true, ok);
                }
                self.set(st, dst, V::A(Rc::new(vec![V::S(old), V::S(e)])));
                if h {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.hook_after(st, p);
                }
            }
            Inst::Fence(o) => {
                if let Some(th) = st.thr.as_mut() {
                    let th = Rc::make_mut(th);
                    let c = th.cur;
                    if o & 1 == 1 {
                        let p = th.pend_acq[c].clone();
                        join(&mut th.clk[c], &p);
                    }
                    if o & 2 == 2 {
                        th.fence_rel[c] = th.clk[c].clone();
                    }
                }
            }
            Inst::Br(b) => return self.goto(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.gs(st, c, 0)?;
                if self.ts.cv(c).is_none() && (self.o.merge || self.o.reals && self.opaque_cond(c)) && self.merge_region(st, c, *a, *b) {
                    return Ok(());
                }
                let r = self.branch(st, c)?;
                return self.goto(st, if r { *a } else { *b });
            }
            Inst::Switch(t, c, d, cases) => {
                let c = self.gs(st, c, *t)?;
                if let Some(v) = self.ts.cv(c) {
                    let tgt = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*d);
                    return self.goto(st, tgt);
                }
                let w = self.ts.w(c);
                for (k, b) in cases {
                    let kk = self.ts.c(*k, w);
                    let e = self.ts.eq(c, kk);
                    if self.branch(st, e)? {
                        return self.goto(st, *b);
                    }
                }
                return self.goto(st, *d);
            }
            Inst::Ret(v) => {
                let v = match v {
                    None => V::N,
                    Some((t, o)) => self.get(st, o, *t)?,
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    let o = st.mem.remove(a);
                    if let Some(o) = o {
                        st.dead.insert(*a, o.size);
                    }
                }
                if fr.hook > 0 {
                    st.in_hook -= 1;
                    if fr.hook == 1 {
                        st.hook_done = true;
                    }
                    return Ok(());
                }
                if st.frames.is_empty() && st.thr.is_some() {
                    // put the frame back: choosing who goes on may need several attempts
                    st.frames.push(fr);
                    return self.thread_end(st);
                }
                if st.frames.is_empty() {
                    self.rep.paths += 1;
                    return Err(Stop::End);
                }
                let c = st.frames.last_mut().unwrap();
                if let Some(d) = fr.ret {
                    c.regs[d as usize] = v;
                }
                c.ip += 1;
                return Ok(());
            }
            Inst::Unreachable => {
                return Err(Stop::Violation("ub".into(), "reached unreachable".into(), None));
            }
            Inst::Unsupported(e) => return Err(Stop::Unsup(e.clone())),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    /// AVX-512 statements of the form used for vectors of eight 64-bit words (Intel syntax)
    fn asm(&mut self, st: &mut State, text: &str, args: &[V]) -> R<()> {
        let mut z: Vec<Option<Vec<T>>> = vec![None; 32];
        let bad = |s: &str| Stop::Unsup(format!("inline asm: {}", s));
        for line in text.split(|c| c == '\n' || c == ';') {
            let line = line.split("//").next().unwrap().split('#').next().unwrap().trim();
            if line.is_empty() {
                continue;
            }
            let (op, rest) = line.split_once(' ').unwrap_or((line, ""));
            let ops: Vec<&str> = rest.split(',').map(|x| x.trim()).collect();
            let reg = |o: &str| -> Option<usize> { o.strip_prefix("zmm")?.parse().ok().filter(|x| *x < 32) };
            let imm = |o: &str| -> Option<u64> { o.strip_prefix("$$")?.parse().ok() };
            let mut addr = |e: &mut Self, o: &str| -> R<T> {
                let inside = o.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| bad(line))?;
                let mut a = e.ts.c(0, 64);
                for part in inside.split('+') {
                    let mut t = e.ts.c(1, 64);
                    for f in part.split('*') {
                        let f = f.trim();
                        let x = if let Some(r) = f.strip_prefix("${") {
                            let k: usize = r.split(|c| c == ':' || c == '}').next().and_then(|x| x.parse().ok()).ok_or_else(|| bad(line))?;
                            args.get(k).ok_or_else(|| bad(line))?.s()?
                        } else {
                            let k: u64 = f.parse().map_err(|_| bad(line))?;
                            e.ts.c(k as u128, 64)
                        };
                        t = e.ts.mul(t, x);
                    }
                    a = e.ts.add(a, t);
                }
                Ok(a)
            };
            let get = |z: &Vec<Option<Vec<T>>>, o: &str| -> R<Vec<T>> {
                let r = reg(o).ok_or_else(|| bad(line))?;
                z[r].clone().ok_or_else(|| Stop::Violation("asm".into(), format!("register read before it is written: {}", line), None))
            };
            let aligned = |e: &mut Self, st: &mut State, a: T| -> R<()> {
                let v = e.concretize(st, a)?;
                if v % 64 != 0 {
                    return Err(Stop::Violation("memory".into(), format!("unaligned vector access at {:#x}: {}", v, line), None));
                }
                Ok(())
            };
            match (op, ops.len()) {
                ("vmovapd" | "vmovaps" | "vmovdqa64" | "vmovupd" | "vmovups" | "vmovdqu64", 2) => {
                    let strict = op.starts_with("vmova") || op == "vmovdqa64";
                    if let Some(d) = reg(ops[0]) {
                        if reg(ops[1]).is_some() {
                            z[d] = Some(get(&z, ops[1])?);
                        } else {
                            let a = addr(self, ops[1])?;
                            if strict {
                                aligned(self, st, a)?;
                            }
                            let mut v = vec![];
                            for i in 0..8 {
                                let k = self.ts.c(8 * i, 64);
                                let p = self.ts.add(a, k);
                                v.push(self.load_scalar(st, p, 8)?);
                            }
                            z[d] = Some(v);
                        }
                    } else {
                        let a = addr(self, ops[0])?;
                        if strict {
                            aligned(self, st, a)?;
                        }
                        let v = get(&z, ops[1])?;
                        for i in 0..8 {
                            let k = self.ts.c(8 * i as u128, 64);
                            let p = self.ts.add(a, k);
                            self.store_scalar(st, p, v[i], 8)?;
                        }
                    }
                }
                ("vshufpd", 4) => {
                    let (a, b, k) = (get(&z, ops[1])?, get(&z, ops[2])?, imm(ops[3]).ok_or_else(|| bad(line))?);
                    let d = reg(ops[0]).ok_or_else(|| bad(line))?;
                    z[d] = Some((0..8).map(|i| if i % 2 == 0 { a[i + (k >> i & 1) as usize] } else { b[i - 1 + (k >> i & 1) as usize] }).collect());
                }
                ("vfmadd231pd" | "vfnmadd231pd" | "vfmsub231pd" | "vfnmsub231pd" | "vfmadd213pd" | "vfnmadd213pd" | "vfmsub213pd" | "vfmadd132pd" | "vfnmadd132pd" | "vfmsub132pd", 3) => {
                    let d = reg(ops[0]).ok_or_else(|| bad(line))?;
                    let (x, y, w) = (get(&z, ops[0])?, get(&z, ops[1])?, get(&z, ops[2])?);
                    let neg_p = op.starts_with("vfn");
                    let neg_c = op.contains("sub");
                    let mut v = vec![];
                    for i in 0..8 {
                        let (mut p, q, mut c) = if op.contains("231") { (y[i], w[i], x[i]) } else if op.contains("213") { (y[i], x[i], w[i]) } else { (x[i], w[i], y[i]) };
                        if neg_p {
                            p = self.ts.fop(FOp::Neg, &[p], 64);
                        }
                        if neg_c {
                            c = self.ts.fop(FOp::Neg, &[c], 64);
                        }
                        v.push(self.ts.fop(FOp::Fma, &[p, q, c], 64));
                    }
                    z[d] = Some(v);
                }
                ("vaddpd" | "vsubpd" | "vmulpd" | "vpmullq" | "vpaddq" | "vpsubq" | "vpxorq" | "vpandq" | "vporq" | "vunpcklpd" | "vunpckhpd", 3) => {
                    let d = reg(ops[0]).ok_or_else(|| bad(line))?;
                    let (x, y) = (get(&z, ops[1])?, get(&z, ops[2])?);
                    let mut v = vec![];
                    for i in 0..8 {
                        v.push(match op {
                            "vaddpd" => self.ts.fop(FOp::Add, &[x[i], y[i]], 64),
                            "vsubpd" => self.ts.fop(FOp::Sub, &[x[i], y[i]], 64),
                            "vmulpd" => self.ts.fop(FOp::Mul, &[x[i], y[i]], 64),
                            "vpmullq" => self.ts.mul(x[i], y[i]),
                            "vpaddq" => self.ts.add(x[i], y[i]),
                            "vpsubq" => self.ts.sub(x[i], y[i]),
                            "vpxorq" => self.ts.xor(x[i], y[i]),
                            "vpandq" => self.ts.and(x[i], y[i]),
                            "vporq" => self.ts.or(x[i], y[i]),
                            "vunpcklpd" => if i % 2 == 0 { x[i] } else { y[i - 1] },
                            _ => if i % 2 == 0 { x[i + 1] } else { y[i] },
                        });
                    }
                    z[d] = Some(v);
                }
                ("vpbroadcastq" | "vbroadcastsd", 2) => {
                    let d = reg(ops[0]).ok_or_else(|| bad(line))?;
                    let x = if let Some(r) = ops[1].strip_prefix("${") {
                        let k: usize = r.split(|c| c == ':' || c == '}').next().and_then(|x| x.parse().ok()).ok_or_else(|| bad(line))?;
                        args.get(k).ok_or_else(|| bad(line))?.s()?
                    } else {
                        let a = addr(self, ops[1].trim_start_matches("qword ptr "))?;
                        self.load_scalar(st, a, 8)?
                    };
                    z[d] = Some(vec![x; 8]);
                }
                _ => return Err(bad(line)),
            }
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &Callee, rt: TyId, args: &[(TyId, Opnd)], dst: Option<u32>) -> R<()> {
        let id = match c {
            Callee::Direct(d) => *d,
            Callee::Indirect(o) => {
                let p = self.gs(st, o, 0)?;
                let p = self.concretize(st, p)? as u64;
                match self.fn_by_addr.get(&p) {
                    Some(i) => *i,
                    None => return Err(Stop::Violation("memory".into(), format!("call of non-function {:#x}", p), None)),
                }
            }
            Callee::Asm(text, _) => {
                if rt != 0 {
                    return Err(Stop::Unsup("inline asm with outputs".into()));
                }
                let mut v = vec![];
                for (t, o) in args {
                    v.push(self.get(st, o, *t)?);
                }
                self.asm(st, text, &v)?;
                self.set(st, dst, V::N);
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
        };
        let mut av = Vec::with_capacity(args.len());
        for (t, o) in args {
            if matches!(self.m.tys[*t as usize], Ty::Meta) {
                av.push(V::N);
                continue;
            }
            av.push(self.get(st, o, *t)?);
        }
        let e = self.classify(id);
        if e == Ext::None {
            if let Some(f) = self.funcs.get(&id).cloned() {
                if st.frames.len() > 400 {
                    return Err(Stop::Limit("recursion depth".into()));
                }
                self.push_frame(st, f, av, dst, 0);
                return Ok(());
            }
            return Err(Stop::Unsup(format!("external function {}", self.m.names[id as usize])));
        }
        let v = self.ext_call(st, e, id, &av, rt, args)?;
        self.set(st, dst, v);
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn ext_call(&mut self, st: &mut State, e: Ext, id: u32, a: &[V], rt: TyId, args: &[(TyId, Opnd)]) -> R<V> {
        let sc = |i: usize| -> R<T> { a.get(i).ok_or(Stop::Unsup("missing argument".into()))?.s() };
        match e {
            Ext::Any => {
                let w = self.ts.cv(sc(0)?).ok_or(Stop::Unsup("sx_any width".into()))? as u16;
                let lo = self.ts.cv(sc(1)?).ok_or(Stop::Unsup("sx_any lo".into()))? as u64;
                let hi = self.ts.cv(sc(2)?).ok_or(Stop::Unsup("sx_any hi".into()))? as u64;
                let hi = (hi as u128).min(mask(w)) as u64;
                let k = st.inputs.len();
                if let Some(cv) = &self.o.concrete {
                    let v = cv.get(k).copied().unwrap_or(lo as u128);
                    let t = self.ts.c(v, 64);
                    st.inputs.push(t);
                    return Ok(V::S(t));
                }
                let t = match self.inputs.get(&(k, w, lo, hi)) {
                    Some(t) => *t,
                    None => {
                        let t = if lo == hi { self.ts.c(lo as u128, w) } else { self.ts.var(format!("in{}", k), w, lo as u128, hi as u128, true) };
                        self.inputs.insert((k, w, lo, hi), t);
                        t
                    }
                };
                let r = self.ts.zext(t, 64);
                st.inputs.push(r);
                Ok(V::S(r))
            }
            Ext::Assume => {
                let c = self.as_bool(sc(0)?);
                if self.ts.cv(c) == Some(1) {
                    return Ok(V::N);
                }
                match self.feasible(st, c) {
                    (Some(false), _) => {
                        self.rep.infeasible += 1;
                        Err(Stop::End)
                    }
                    (_, m) => {
                        self.assume(st, c, m);
                        Ok(V::N)
                    }
                }
            }
            Ext::Assert => {
                let c = self.as_bool(sc(0)?);
                let code = self.ts.cv(sc(1)?).unwrap_or(0) as u64;
                self.prove(st, c, code, "assertion")?;
                Ok(V::N)
            }
            Ext::Reach => {
                let code = self.ts.cv(sc(0)?).unwrap_or(0) as u64;
                // witness must be a feasible path
                if !self.rep.reach.contains_key(&code) && !st.path.is_empty() {
                    st.model = None;
                    self.ensure_model(st)?;
                }
                *self.rep.reach.entry(code).or_insert(0) += 1;
                Ok(V::N)
            }
            Ext::PanicOk => {
                let c = self.ts.cv(sc(0)?).unwrap_or(0);
                st.panic_ok = c & 1 == 1;
                Ok(V::N)
            }
            Ext::Concretize => {
                let v = self.concretize(st, sc(0)?)?;
                let w = self.ts.w(sc(0)?);
                Ok(V::S(self.ts.c(v, w)))
            }
            Ext::ForkEq => {
                // returns a concrete bool, forking
                let c = self.ts.eq(sc(0)?, sc(1)?);
                let r = self.branch(st, c)?;
                Ok(V::S(self.ts.c(r as u128, self.fwidth(rt))))
            }
            Ext::Libm => {
                let n = self.m.names[id as usize].clone();
                let x = sc(0)?;
                let mut v = vec![x];
                for i in 1..a.len() {
                    v.push(sc(i)?);
                }
                let f = |s: &Self, t: T| s.ts.cv(t).map(|b| f64::from_bits(b as u64));
                let op = match n.as_str() {
                    "sin" => Some(FOp::Sin),
                    "cos" => Some(FOp::Cos),
                    "exp" => Some(FOp::Exp),
                    "exp2" => Some(FOp::Exp2),
                    "log" => Some(FOp::Log),
                    "pow" => Some(FOp::Pow),
                    "sqrt" => Some(FOp::Sqrt),
                    "round" => Some(FOp::Round),
                    "floor" => Some(FOp::Floor),
                    "ceil" => Some(FOp::Ceil),
                    "trunc" => Some(FOp::Trunc),
                    "rint" => Some(FOp::RoundEven),
                    "fma" => Some(FOp::Fma),
                    "fmod" => Some(FOp::Rem),
                    _ => None,
                };
                if let Some(op) = op {
                    return Ok(V::S(self.ts.fop(op, &v, 64)));
                }
                let c = |i: usize| v.get(i).and_then(|t| f(self, *t));
                let Some(p) = c(0) else { return Err(Stop::Unsup(format!("{} of a symbolic value", n))) };
                let q = if v.len() > 1 { c(1).ok_or(Stop::Unsup(format!("{} of a symbolic value", n)))? } else { 0.0 };
                let r = match n.as_str() {
                    "tan" => p.tan(),
                    "log2" => p.log2(),
                    "log10" => p.log10(),
                    "atan" => p.atan(),
                    "atan2" => p.atan2(q),
                    "hypot" => p.hypot(q),
                    "cbrt" => p.cbrt(),
                    "sinh" => p.sinh(),
                    "cosh" => p.cosh(),
                    "tanh" => p.tanh(),
                    "asin" => p.asin(),
                    "acos" => p.acos(),
                    "expm1" => p.exp_m1(),
                    _ => p.ln_1p(),
                };
                Ok(V::S(self.ts.c(r.to_bits() as u128, 64)))
            }
            Ext::Dyadic => {
                let k = sc(0)?;
                let ex = sc(1)?;
                let ex = self.ts.sext(ex, 64);
                Ok(V::S(self.ts.fop(FOp::Dyadic, &[k, ex], 64)))
            }
            Ext::Watch => {
                let g = |s: &Self, i: usize| -> R<u64> { Ok(s.ts.cv(sc(i)?).ok_or(Stop::Unsup("sx_watch".into()))? as u64) };
                let w = (g(self, 0)?, g(self, 1)?, g(self, 2)?, g(self, 3)?);
                st.watch.retain(|x| x.0 != w.0);
                if w.1 > 0 {
                    st.watch.push(w);
                }
                Ok(V::N)
            }
            Ext::Thread => Ok(V::S(self.ts.c(st.thr.as_ref().map_or(0, |t| t.cur) as u128, 32))),
            Ext::Run => {
                // sx_run(table of functions, count, steps per thread)
                let n = self.ts.cv(sc(1)?).ok_or(Stop::Unsup("sx_run".into()))? as usize;
                let budget = self.ts.cv(sc(2)?).ok_or(Stop::Unsup("sx_run".into()))? as u64;
                let mut fs = vec![];
                for i in 0..n {
                    let k = self.ts.c(8 * i as u128, 64);
                    let p = self.ts.add(sc(0)?, k);
                    let x = self.load_scalar(st, p, 8)?;
                    let x = self.ts.cv(x).ok_or(Stop::Unsup("sx_run function".into()))? as u64;
                    let id = self.fn_by_addr[&x];
                    fs.push(self.funcs.get(&id).cloned().ok_or(Stop::Unsup("thread body".into()))?);
                }
                let preempt = self.ts.cv(sc(3)?).ok_or(Stop::Unsup("sx_run".into()))? as u64;
                let mut th = Threads { budget, preempt, main: std::mem::take(&mut st.frames), ..Default::default() };
                for (i, f) in fs.into_iter().enumerate() {
                    self.push_frame(st, f, vec![], None, 0);
                    th.frames.push(std::mem::take(&mut st.frames));
                    let mut c = vec![0; n];
                    c[i] = 1;
                    th.clk.push(c);
                }
                th.done = vec![false; n];
                th.at_point = vec![false; n];
                th.ops = vec![0; n];
                th.pend_acq = vec![vec![0; n]; n];
                th.fence_rel = vec![vec![0; n]; n];
                st.frames = std::mem::take(&mut th.frames[0]);
                st.thr = Some(Rc::new(th));
                Err(Stop::Retry)
            }
            Ext::Note => {
                let k = self.ts.cv(sc(0)?).unwrap_or(0) as u32;
                let t = sc(1)?;
                st.notes.push((k, t));
                if self.o.trace {
                    eprintln!("  note {} = {}", k, self.show(t, 4));
                }
                Ok(V::N)
            }
            Ext::LiveHeap => Ok(V::S(self.ts.c(st.live_heap as u128, 64))),
            Ext::Holds => {
                let c = sc(0)?;
                let v = (self.ts.cv(c).map_or(0, |v| v & 1)) as u128;
                Ok(V::S(self.ts.c(v, self.fwidth(rt))))
            }
            Ext::IsSym => Ok(V::S(self.ts.c(1, self.fwidth(rt)))),
            Ext::Alloc | Ext::AllocZ => {
                let n = self.concretize(st, sc(0)?)? as u64;
                let al = self.concretize(st, sc(1)?)? as u64;
                if n > 64 << 20 {
                    return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
                }
                let b = self.alloc(st, n, al, 0);
                st.live_heap += 1;
                if e == Ext::AllocZ {
                    let z = self.ts.c(0, 8);
                    let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                    for c in o.cells.iter_mut() {
                        *c = (z, 0);
                    }
                }
                Ok(V::S(self.ts.c(b as u128, 64)))
            }
            Ext::Realloc => {
                let p = self.concretize(st, sc(0)?)? as u64;
                let old = self.concretize(st, sc(1)?)? as u64;
                let al = self.concretize(st, sc(2)?)? as u64;
                let n = self.concretize(st, sc(3)?)? as u64;
                let Some(o) = st.mem.get(&p).cloned() else { return Err(self.mem_err(st, p, old, "realloc")) };
                let b = self.alloc(st, n, al, 0);
                {
                    let no = Rc::make_mut(st.mem.get_mut(&b).unwrap());
                    let k = old.min(n).min(o.size) as usize;
                    no.cells[..k].copy_from_slice(&o.cells[..k]);
                }
                st.mem.remove(&p);
                st.dead.insert(p, o.size);
                Ok(V::S(self.ts.c(b as u128, 64)))
            }
            Ext::Dealloc => {
                let p = self.concretize(st, sc(0)?)? as u64;
                let n = self.concretize(st, sc(1)?)? as u64;
                match st.mem.get(&p).cloned() {
                    Some(o) if o.kind == 0 => {
                        if o.size != n {
                            return Err(Stop::Violation("memory".into(), format!("dealloc of {} bytes for an allocation of {}", n, o.size), None));
                        }
                        if let Some(al) = self.ts.cv(sc(2)?) {
                            if al as u64 != o.align {
                                return Err(Stop::Violation("memory".into(), format!("dealloc with alignment {} for an allocation of alignment {}", al, o.align), None));
                            }
                        }
                        st.mem.remove(&p);
                        st.dead.insert(p, o.size);
                        st.live_heap -= 1;
                        Ok(V::N)
                    }
                    _ => Err(self.mem_err(st, p, n, "dealloc")),
                }
            }
            Ext::Nop => Ok(V::N),
            Ext::Zero => {
                let w = self.fwidth(rt);
                Ok(if rt == 0 { V::N } else { V::S(self.ts.c(0, w)) })
            }
            Ext::One => {
                let w = self.fwidth(rt);
                Ok(V::S(self.ts.c(1, w)))
            }
            Ext::Feature => Ok(V::S(self.ts.c(0, self.fwidth(rt)))),
            Ext::Panic | Ext::AbortLike => {
                let site = format!("{} <- {}", self.m.names[id as usize], st.frames.iter().rev().take(3).map(|f| f.func.name.as_str()).collect::<Vec<_>>().join(" <- "));
                if st.panic_ok && e == Ext::Panic {
                    // an expected panic must be on a feasible path
                    *self.rep.panic_sites.entry(site).or_insert(0) += 1;
                    if st.thr.is_some() {
                        // this thread only
                        self.thread_end(st)?;
                        return Err(Stop::Retry);
                    }
                    self.rep.panics_ok += 1;
                    return Err(Stop::End);
                }
                self.ensure_model(st)?;
                Err(Stop::Violation("panic".into(), site, st.model.as_ref().map(|m| (**m).clone())))
            }
            Ext::Memcmp => {
                let n = self.concretize(st, sc(2)?)? as u64;
                let mut diff = self.ts.c(0, 32);
                let isb = self.m.names[id as usize] == "bcmp";
                for i in (0..n).rev() {
                    let k = self.ts.c(i as u128, 64);
                    let (p, q) = (self.ts.add(sc(0)?, k), self.ts.add(sc(1)?, k));
                    let x = self.load_scalar(st, p, 1)?;
                    let y = self.load_scalar(st, q, 1)?;
                    let e = self.ts.eq(x, y);
                    let d = if isb {
                        self.ts.c(1, 32)
                    } else {
                        let l = self.ts.ult(x, y);
                        let m1 = self.ts.c(mask(32), 32);
                        let p1 = self.ts.c(1, 32);
                        self.ts.ite(l, m1, p1)
                    };
                    diff = self.ts.ite(e, diff, d);
                }
                Ok(V::S(diff))
            }
            Ext::Strlen => {
                let mut n = 0u64;
                loop {
                    let k = self.ts.c(n as u128, 64);
                    let p = self.ts.add(sc(0)?, k);
                    let x = self.load_scalar(st, p, 1)?;
                    match self.ts.cv(x) {
                        Some(0) => return Ok(V::S(self.ts.c(n as u128, 64))),
                        Some(_) => n += 1,
                        None => return Err(Stop::Unsup("strlen symbolic".into())),
                    }
                }
            }
            Ext::Intrinsic => self.intrinsic(st, id, a, rt, args),
            Ext::None => unreachable!(),
        }
    }
    fn as_bool(&mut self, t: T) -> T {
        if self.ts.w(t) == 1 {
            t
        } else {
            let z = self.ts.c(0, self.ts.w(t));
            let e = self.ts.eq(t, z);
            self.ts.not(e)
        }
    }
    pub fn show(&self, t: T, d: u32) -> String {
        if d == 0 {
            return format!("t{}", t);
        }
        match self.ts.n(t) {
            Node::Const(c) => format!("{:#x}", c),
            Node::Var(i) => self.ts.vars[*i as usize].name.clone(),
            Node::Poly(ts, k) => {
                let mut s = String::from("(");
                for (c, m) in ts.iter().take(12) {
                    s.push_str(&format!("{:#x}*{} + ", c, m.iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join("*")));
                }
                s.push_str(&format!("{:#x})", k));
                s
            }
            n => {
                let nm = format!("{:?}", n);
                let nm = nm.split('(').next().unwrap().to_string();
                let mut cs = vec![];
                self.ts.children(t, &mut |c| cs.push(c));
                format!("{}[{}]({})", nm, self.ts.w(t), cs.iter().map(|c| self.show(*c, d - 1)).collect::<Vec<_>>().join(", "))
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, id: u32, a: &[V], rt: TyId, args: &[(TyId, Opnd)]) -> R<V> {
        let name = self.m.names[id as usize].clone();
        let n = &name[5..];
        let sc = |i: usize| -> R<T> { a.get(i).ok_or(Stop::Unsup("missing argument".into()))?.s() };
        let p = |s: &str| n.starts_with(s);
        if p("lifetime.") || p("assume") || p("prefetch") || p("dbg.") || p("invariant.") || p("x86.avx.vzero") || p("x86.sse2.pause") || p("sideeffect") || p("donothing") || p("fake.use") {
            if p("assume") {
                // compiler-derived fact: if it can be false the program has undefined behaviour
                return Ok(V::N);
            }
            return Ok(V::N);
        }
        if p("memcpy") || p("memmove") {
            let k = self.concretize(st, sc(2)?)? as u64;
            self.copy_mem(st, sc(0)?, sc(1)?, k)?;
            return Ok(V::N);
        }
        if p("memset") {
            let k = self.concretize(st, sc(2)?)? as u64;
            if k == 0 {
                return Ok(V::N);
            }
            let d = sc(0)?;
            let b = sc(1)?;
            let (ob, off) = self.resolve(st, d, k, "write")?;
            let off = match off {
                Ok(o) => o,
                Err(_) => self.concretize(st, d)? as u64 - ob,
            };
            if st.mem[&ob].kind == 3 {
                return Err(Stop::Violation("memory".into(), "write to constant memory".into(), None));
            }
            let o = Rc::make_mut(st.mem.get_mut(&ob).unwrap());
            for i in 0..k {
                o.cells[(off + i) as usize] = (b, 0);
            }
            return Ok(V::N);
        }
        if p("threadlocal.address") {
            return Ok(a[0].clone());
        }
        if p("trap") || p("debugtrap") || p("ubsantrap") {
            self.ensure_model(st)?;
            return Err(Stop::Violation("panic".into(), "llvm.trap".into(), st.model.as_ref().map(|m| (**m).clone())));
        }
        if p("expect") || p("launder") || p("strip.invariant") || p("ssa.copy") || p("annotation") {
            return Ok(a[0].clone());
        }
        if p("is.constant") {
            return Ok(V::S(self.ts.fals()));
        }
        if p("objectsize") {
            let w = self.fwidth(rt);
            return Ok(V::S(self.ts.c(mask(w), w)));
        }
        if p("uadd.with.overflow") || p("usub.with.overflow") || p("sadd.with.overflow") || p("ssub.with.overflow") || p("umul.with.overflow") || p("smul.with.overflow") {
            let (x, y) = (sc(0)?, sc(1)?);
            let w = self.ts.w(x);
            let signed = n.as_bytes()[0] == b's';
            let op = &n[1..4];
            if op == "mul" {
                if w > 64 {
                    return Err(Stop::Unsup("wide mul overflow".into()));
                }
                let w2 = 2 * w;
                let (xx, yy) = if signed { (self.ts.sext(x, w2), self.ts.sext(y, w2)) } else { (self.ts.zext(x, w2), self.ts.zext(y, w2)) };
                let pr = self.ts.mul(xx, yy);
                let lo = self.ts.mul(x, y);
                let back = if signed { self.ts.sext(lo, w2) } else { self.ts.zext(lo, w2) };
                let ok = self.ts.eq(pr, back);
                let ov = self.ts.not(ok);
                return Ok(V::A(Rc::new(vec![V::S(lo), V::S(ov)])));
            }
            let r = if op == "add" { self.ts.add(x, y) } else { self.ts.sub(x, y) };
            let ov = if !signed {
                if op == "add" {
                    self.ts.ult(r, x)
                } else {
                    self.ts.ult(x, y)
                }
            } else {
                let z = self.ts.c(0, w);
                let ny = self.ts.slt(y, z);
                let lt = if op == "add" { self.ts.slt(r, x) } else { self.ts.slt(x, r) };
                self.ts.xor(ny, lt)
            };
            return Ok(V::A(Rc::new(vec![V::S(r), V::S(ov)])));
        }
        if p("vector.reduce.") {
            let op = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let (v, init) = if op == "fadd" || op == "fmul" { (a[1].a()?.clone(), Some(sc(0)?)) } else { (a[0].a()?.clone(), None) };
            let mut it = v.iter();
            let mut r = match init {
                Some(t) => t,
                None => it.next().unwrap().s()?,
            };
            for x in it {
                let x = x.s()?;
                let w = self.ts.w(r);
                r = match op.as_str() {
                    "add" => self.ts.add(r, x),
                    "mul" => self.ts.mul(r, x),
                    "and" => self.ts.and(r, x),
                    "or" => self.ts.or(r, x),
                    "xor" => self.ts.xor(r, x),
                    "fadd" => self.ts.fop(FOp::Add, &[r, x], w),
                    "fmul" => self.ts.fop(FOp::Mul, &[r, x], w),
                    "umax" | "umin" => {
                        let c = self.ts.ult(r, x);
                        if op == "umax" {
                            self.ts.ite(c, x, r)
                        } else {
                            self.ts.ite(c, r, x)
                        }
                    }
                    "smax" | "smin" => {
                        let c = self.ts.slt(r, x);
                        if op == "smax" {
                            self.ts.ite(c, x, r)
                        } else {
                            self.ts.ite(c, r, x)
                        }
                    }
                    _ => return Err(Stop::Unsup(format!("reduce {}", op))),
                };
            }
            return Ok(V::S(r));
        }
        // element-wise intrinsics
        let lanes = match a.get(0) {
            Some(V::A(v)) => Some(v.len()),
            _ => None,
        };
        let ew = {
            let t = match self.m.tys[rt as usize] {
                Ty::Vec(_, e) => e,
                _ => rt,
            };
            self.fwidth(t)
        };
        let _ = args;
        match lanes {
            None => {
                let mut s = vec![];
                for x in a {
                    s.push(match x {
                        V::S(t) => *t,
                        _ => return Err(Stop::Unsup(format!("intrinsic {}", name))),
                    });
                }
                Ok(V::S(self.intr1(n, &s, ew)?))
            }
            Some(k) => {
                let mut out = vec![];
                for i in 0..k {
                    let mut s = vec![];
                    for x in a {
                        s.push(match x {
                            V::S(t) => *t,
                            V::A(v) if v.len() == k => v[i].s()?,
                            _ => return Err(Stop::Unsup(format!("intrinsic {}", name))),
                        });
                    }
                    out.push(V::S(self.intr1(n, &s, ew)?));
                }
                Ok(V::A(Rc::new(out)))
            }
        }
    }
    fn intr1(&mut self, n: &str, s: &[T], ew: u16) -> R<T> {
        let p = |x: &str| n.starts_with(x);
        let w = self.ts.w(s[0]);
        let ts = &mut self.ts;
        if n.starts_with("x86.") {
            return Err(Stop::Unsup(format!("intrinsic {}", n)));
        }
        Ok(if p("umax.") {
            let c = ts.ult(s[0], s[1]);
            ts.ite(c, s[1], s[0])
        } else if p("umin.") {
            let c = ts.ult(s[0], s[1]);
            ts.ite(c, s[0], s[1])
        } else if p("smax.") {
            let c = ts.slt(s[0], s[1]);
            ts.ite(c, s[1], s[0])
        } else if p("smin.") {
            let c = ts.slt(s[0], s[1]);
            ts.ite(c, s[0], s[1])
        } else if p("abs.") {
            let z = ts.c(0, w);
            let c = ts.slt(s[0], z);
            let m = ts.neg(s[0]);
            ts.ite(c, m, s[0])
        } else if p("ucmp.") || p("scmp.") {
            let (l, g) = if p("ucmp.") { (ts.ult(s[0], s[1]), ts.ult(s[1], s[0])) } else { (ts.slt(s[0], s[1]), ts.slt(s[1], s[0])) };
            let (m1, o, z) = (ts.c(mask(ew), ew), ts.c(1, ew), ts.c(0, ew));
            let x = ts.ite(g, o, z);
            ts.ite(l, m1, x)
        } else if p("fshl.") || p("fshr.") {
            let left = p("fshl.");
            let k = match ts.cv(s[2]) {
                Some(k) => (k % w as u128) as u16,
                None => {
                    // general case through a double-width shift
                    if w > 64 {
                        return Err(Stop::Unsup("symbolic wide funnel shift".into()));
                    }
                    let wc = ts.c(w as u128, w);
                    let amt = ts.urem(s[2], wc);
                    let cat = ts.concat(s[0], s[1]);
                    let am2 = ts.zext(amt, 2 * w);
                    return Ok(if left {
                        let sh = ts.shl(cat, am2);
                        ts.extract(sh, w, w)
                    } else {
                        let sh = ts.lshr(cat, am2);
                        ts.extract(sh, 0, w)
                    });
                }
            };
            if k == 0 {
                if left {
                    s[0]
                } else {
                    s[1]
                }
            } else {
                let k = if left { k } else { w - k };
                // (a << k) | (b >> (w-k))
                let hi = ts.extract(s[0], 0, w - k);
                let lo = ts.extract(s[1], w - k, k);
                ts.concat(hi, lo)
            }
        } else if p("ctpop.") {
            let mut r = ts.c(0, w);
            for i in 0..w {
                let b = ts.extract(s[0], i, 1);
                let z = ts.zext(b, w);
                r = ts.add(r, z);
            }
            r
        } else if p("ctlz.") || p("cttz.") {
            let lead = p("ctlz.");
            let mut r = ts.c(w as u128, w);
            for i in 0..w {
                let bit = if lead { i } else { w - 1 - i };
                let b = ts.extract(s[0], bit, 1);
                let v = ts.c((w - 1 - i) as u128, w);
                r = ts.ite(b, v, r);
            }
            r
        } else if p("bswap.") {
            let mut r: Option<T> = None;
            for i in 0..w / 8 {
                let b = ts.extract(s[0], i * 8, 8);
                r = Some(match r {
                    None => b,
                    Some(x) => ts.concat(x, b),
                });
            }
            r.unwrap()
        } else if p("bitreverse.") {
            let mut r: Option<T> = None;
            for i in 0..w {
                let b = ts.extract(s[0], i, 1);
                r = Some(match r {
                    None => b,
                    Some(x) => ts.concat(x, b),
                });
            }
            r.unwrap()
        } else if p("uadd.sat.") {
            let r = ts.add(s[0], s[1]);
            let c = ts.ult(r, s[0]);
            let m = ts.c(mask(w), w);
            ts.ite(c, m, r)
        } else if p("usub.sat.") {
            let r = ts.sub(s[0], s[1]);
            let c = ts.ult(s[0], s[1]);
            let m = ts.c(0, w);
            ts.ite(c, m, r)
        } else if p("fma.") || p("fmuladd.") {
            ts.fop(FOp::Fma, &[s[0], s[1], s[2]], ew)
        } else if p("sqrt.") {
            ts.fop(FOp::Sqrt, &[s[0]], ew)
        } else if p("fabs.") {
            ts.fop(FOp::Abs, &[s[0]], ew)
        } else if p("floor.") {
            ts.fop(FOp::Floor, &[s[0]], ew)
        } else if p("ceil.") {
            ts.fop(FOp::Ceil, &[s[0]], ew)
        } else if p("roundeven.") || p("rint.") || p("nearbyint.") {
            ts.fop(FOp::RoundEven, &[s[0]], ew)
        } else if p("round.") {
            ts.fop(FOp::Round, &[s[0]], ew)
        } else if p("trunc.") {
            ts.fop(FOp::Trunc, &[s[0]], ew)
        } else if p("exp2.") {
            ts.fop(FOp::Exp2, &[s[0]], ew)
        } else if p("exp.") {
            ts.fop(FOp::Exp, &[s[0]], ew)
        } else if p("log.") {
            ts.fop(FOp::Log, &[s[0]], ew)
        } else if p("sin.") {
            ts.fop(FOp::Sin, &[s[0]], ew)
        } else if p("cos.") {
            ts.fop(FOp::Cos, &[s[0]], ew)
        } else if p("pow.") {
            ts.fop(FOp::Pow, &[s[0], s[1]], ew)
        } else if p("powi.") {
            let y = ts.fop(FOp::SiToFp, &[s[1]], ew);
            ts.fop(FOp::Pow, &[s[0], y], ew)
        } else if p("log2.") {
            let x = ts.fop(FOp::Log, &[s[0]], ew);
            if ts.cv(s[0]).is_some() {
                let v = f64::from_bits(ts.cv(s[0]).unwrap() as u64).log2();
                ts.c(v.to_bits() as u128, 64)
            } else {
                x
            }
        } else if p("copysign.") {
            ts.fop(FOp::CopySign, &[s[0], s[1]], ew)
        } else if p("maxnum.") || p("maximumnum.") || p("maximum.") {
            ts.fop(FOp::MaxNum, &[s[0], s[1]], ew)
        } else if p("minnum.") || p("minimumnum.") || p("minimum.") {
            ts.fop(FOp::MinNum, &[s[0], s[1]], ew)
        } else if p("fptosi.sat.") {
            ts.fop(FOp::FpToSiSat, &[s[0]], ew)
        } else if p("fptoui.sat.") {
            ts.fop(FOp::FpToUiSat, &[s[0]], ew)
        } else {
            return Err(Stop::Unsup(format!("intrinsic {}", n)));
        })
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
