//! Parser for the textual LLVM IR that rustc / opt emit.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Array(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Func,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(TyId, u128),
    Float(TyId, u64),
    Null,
    Undef(TyId),
    Zero(TyId),
    Agg(TyId, Vec<Const>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(TyId, Box<Const>, Vec<Const>),
    PtrToInt(TyId, Box<Const>),
    IntToPtr(Box<Const>),
    Cast(String, TyId, Box<Const>),
    Bin(String, TyId, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    /// index into Func.consts
    K(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    BitCast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // index in Module.names
    Indirect(Opnd),
    Asm(String, String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, TyId, Opnd, Opnd),
    FNeg(TyId, Opnd),
    Cast(Cast, TyId, Opnd, TyId),
    ICmp(Pred, TyId, Opnd, Opnd),
    FCmp(String, TyId, Opnd, Opnd),
    Select(TyId, Opnd, Opnd, Opnd, bool),
    Load(TyId, Opnd, Option<u8>),
    Store(TyId, Opnd, Opnd, Option<u8>),
    Alloca(TyId, Opnd, u64),
    Gep(TyId, Opnd, Vec<(TyId, Opnd)>),
    Phi(TyId, Vec<(Opnd, u32)>),
    Call(Callee, TyId, Vec<(TyId, Opnd)>),
    ExtractValue(TyId, Opnd, Vec<u32>),
    InsertValue(TyId, Opnd, TyId, Opnd, Vec<u32>),
    ExtractElem(TyId, Opnd, Opnd),
    InsertElem(TyId, Opnd, Opnd, Opnd),
    Shuffle(TyId, Opnd, Opnd, Vec<Option<u32>>),
    Freeze(TyId, Opnd),
    /// orderings: bit 0 acquire, bit 1 release
    AtomicRmw(String, TyId, Opnd, Opnd, u8),
    /// weak, success and failure ordering
    CmpXchg(TyId, Opnd, Opnd, Opnd, bool, u8, u8),
    Fence(u8),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(TyId, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Opnd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub insts: Vec<(Option<u32>, Inst)>,
    /// debug locations of the instructions (metadata ids)
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub ret: TyId,
    pub params: Vec<(TyId, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<Const>,
    pub regnames: Vec<String>,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}

pub struct Module {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub layouts: Vec<Option<(u64, u64, Vec<u64>)>>,
    named: HashMap<String, TyId>,
    pub names: Vec<String>,
    pub nameidx: HashMap<String, u32>,
    pub funcs: HashMap<u32, Func>,
    pub declared: HashMap<u32, TyId>,
    pub globals: HashMap<String, Global>,
    pub aliases: HashMap<String, Const>,
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    Q(String),
    P(char),
    Meta,
    Attr,
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && i + 2 < s.len() && s[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let s = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[s..i])).to_string();
                    i += 1;
                } else {
                    let s = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1
                    }
                    name = line[s..i].to_string();
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::Str(unescape(&b[s..i])));
                i += 1;
            }
            b'"' => {
                let s = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::Q(line[s..i].to_string()));
                i += 1;
            }
            b'!' => {
                i += 1;
                while i < b.len() && (idc(b[i])) {
                    i += 1
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                out.push(Tok::Attr);
            }
            b'.' if i + 2 < b.len() && &b[i..i + 3] == b"..." => {
                i += 3;
                out.push(Tok::Dots);
            }
            b'-' | b'0'..=b'9' => {
                let s = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) {
                    i += 1
                }
                out.push(Tok::Num(line[s..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'$' || b[i] == b'-') {
                    i += 1
                }
                out.push(Tok::Id(line[s..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    consts: Vec<Const>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn k(&mut self, c: Const) -> Opnd {
        self.consts.push(c);
        Opnd::K(self.consts.len() as u32 - 1)
    }
}

const PARAM_ATTR_ARG: &[&str] = &[
    "align", "dereferenceable", "dereferenceable_or_null", "range", "captures", "sret", "byval", "initializes", "nofpclass", "elementtype", "byref",
    "alignstack", "allocsize", "inalloca", "preallocated", "memory", "vscale_range", "dead_on_return",
];

impl Module {
    pub fn new() -> Self {
        let mut m = Module {
            tys: vec![],
            tymap: HashMap::new(),
            layouts: vec![],
            named: HashMap::new(),
            names: vec![],
            nameidx: HashMap::new(),
            funcs: HashMap::new(),
            declared: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
        };
        m.ty(Ty::Void);
        m
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.layouts.push(None);
        self.tymap.insert(t, i);
        i
    }
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.nameidx.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.nameidx.insert(s.to_string(), i);
        i
    }
    /// (size, align, field offsets)
    pub fn layout(&mut self, t: TyId) -> (u64, u64, Vec<u64>) {
        if let Some(l) = &self.layouts[t as usize] {
            return l.clone();
        }
        let r = match self.tys[t as usize].clone() {
            Ty::Int(w) => {
                let b = (w as u64 + 7) / 8;
                let a = if b >= 16 { 16 } else { b.next_power_of_two() };
                let s = (b + a - 1) / a * a;
                (s, a, vec![])
            }
            Ty::Ptr | Ty::F64 => (8, 8, vec![]),
            Ty::F32 => (4, 4, vec![]),
            Ty::FOther(w) => ((w as u64) / 8, (w as u64) / 8, vec![]),
            Ty::Array(n, e) => {
                let (s, a, _) = self.layout(e);
                (s * n, a, vec![])
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[e as usize] {
                    Ty::Int(w) => w as u64 * n,
                    _ => self.layout(e).0 * 8 * n,
                };
                let b = (bits + 7) / 8;
                let s = b.next_power_of_two().max(1);
                (s, s, vec![])
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                let mut offs = vec![];
                for f in fs {
                    let (s, a, _) = self.layout(f);
                    let a = if packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += s;
                    al = al.max(a);
                }
                off = (off + al - 1) / al * al;
                (off, al, offs)
            }
            _ => (0, 1, vec![]),
        };
        self.layouts[t as usize] = Some(r.clone());
        r
    }
    pub fn size(&mut self, t: TyId) -> u64 {
        self.layout(t).0
    }

    pub fn parse(text: &str) -> Result<Module, String> {
        let mut m = Module::new();
        let lines: Vec<&str> = text.lines().collect();
        // named types first (in order; may be forward references -> iterate)
        let mut pend: Vec<&str> = lines.iter().copied().filter(|l| l.starts_with('%') && l.contains(" = type ")).collect();
        for _ in 0..50 {
            let mut rest = vec![];
            for l in &pend {
                let toks = lex(l);
                let nm = match &toks[0] {
                    Tok::Local(n) => n.clone(),
                    _ => continue,
                };
                let mut p = Ps { t: toks, i: 3, m: &mut m };
                match p.ty() {
                    Ok(t) => {
                        m.named.insert(nm, t);
                    }
                    Err(_) => rest.push(*l),
                }
            }
            if rest.is_empty() {
                break;
            }
            pend = rest;
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                m.parse_global(l).map_err(|e| format!("global: {}: {}", e, &l[..l.len().min(200)]))?;
            } else if l.starts_with("declare ") {
                let toks = lex(l);
                if let Some(n) = toks.iter().find_map(|t| if let Tok::Global(n) = t { Some(n.clone()) } else { None }) {
                    let mut p = Ps { t: toks, i: 1, m: &mut m };
                    p.skip_attrs();
                    let r = p.ty().unwrap_or(0);
                    let id = m.name(&n);
                    m.declared.insert(id, r);
                }
            } else if l.starts_with("define ") {
                let mut j = i + 1;
                while lines[j] != "}" {
                    j += 1
                }
                let f = m.parse_func(&lines[i..j]).map_err(|e| format!("function {}: {}", &l[..l.len().min(200)], e))?;
                let id = m.name(&f.name.clone());
                m.funcs.insert(id, f);
                i = j;
            }
            i += 1;
        }
        Ok(m)
    }

    fn parse_global(&mut self, l: &str) -> Result<(), String> {
        let toks = lex(l);
        let name = match &toks[0] {
            Tok::Global(n) => n.clone(),
            _ => return Err("name".into()),
        };
        let mut tls = false;
        let mut i = 2;
        loop {
            match &toks[i] {
                Tok::Id(s) if s == "global" || s == "constant" || s == "alias" || s == "ifunc" => break,
                Tok::Id(s) if s == "thread_local" => tls = true,
                _ => {}
            }
            i += 1;
            if i >= toks.len() {
                return Err("no kind".into());
            }
        }
        let kind = if let Tok::Id(s) = &toks[i] { s.clone() } else { unreachable!() };
        let external = toks[2..i].iter().any(|t| matches!(t, Tok::Id(s) if s == "external" || s == "extern_weak"));
        let mut p = Ps { t: toks, i: i + 1, m: self };
        let ty = p.ty()?;
        if kind == "alias" || kind == "ifunc" {
            p.expect(',')?;
            let t2 = p.ty()?;
            let c = p.konst(t2)?;
            self.aliases.insert(name, c);
            return Ok(());
        }
        let init = if external || p.i >= p.t.len() || p.peek_p(',') { None } else { Some(p.konst(ty)?) };
        let mut align = 0;
        while p.i + 1 < p.t.len() {
            if let (Tok::Id(s), Tok::Num(n)) = (&p.t[p.i], &p.t[p.i + 1]) {
                if s == "align" {
                    align = n.parse().unwrap();
                }
            }
            p.i += 1;
        }
        if align == 0 {
            align = self.layout(ty).1;
        }
        self.globals.insert(name.clone(), Global { name, ty, init, constant: kind == "constant", tls, align });
        Ok(())
    }

    fn parse_func(&mut self, lines: &[&str]) -> Result<Func, String> {
        let toks = lex(lines[0]);
        let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), consts: vec![] };
        let mut p = Ps { t: toks, i: 1, m: self };
        p.skip_attrs();
        let ret = p.ty()?;
        let name = match p.next() {
            Tok::Global(n) => n,
            x => return Err(format!("function name {:?}", x)),
        };
        p.expect('(')?;
        let mut params = vec![];
        let mut auto = 0u32;
        while !p.peek_p(')') {
            if p.t[p.i] == Tok::Dots {
                p.i += 1;
                continue;
            }
            let t = p.ty()?;
            p.skip_attrs();
            let nm = match p.t.get(p.i) {
                Some(Tok::Local(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    n
                }
                _ => auto.to_string(),
            };
            auto += 1;
            let r = cx.reg(&nm);
            params.push((t, r));
            if p.peek_p(',') {
                p.i += 1;
            }
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut k = 1;
        let mut cur: Option<u32> = None;
        let mut insts: Vec<(Option<u32>, Inst)> = vec![];
        let mut dbg: Vec<u32> = vec![];
        let firstname = {
            // entry label is implicit: number of unnamed params
            let l = lines[1];
            if !l.starts_with(' ') && l.contains(':') {
                None
            } else {
                Some(auto.to_string())
            }
        };
        if let Some(n) = firstname {
            cur = Some(cx.block(&n));
        }
        while k < lines.len() {
            let l = lines[k];
            k += 1;
            if l.trim().is_empty() {
                continue;
            }
            if !l.starts_with(' ') && !l.starts_with('\t') {
                // label
                if let Some(b) = cur.take() {
                    blocks.push((b, Block { insts: std::mem::take(&mut insts), dbg: std::mem::take(&mut dbg) }));
                }
                let lab = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unescape(l[1..1 + e].as_bytes())).to_string()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                cur = Some(cx.block(&lab));
                continue;
            }
            let mut full = l.to_string();
            if let Some(i) = l.rfind("!dbg !") {
                let d: String = l[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(d) = d.parse() {
                    if dbg.last() != Some(&d) {
                        dbg.push(d);
                    }
                }
            }
            if l.trim_start().starts_with("switch ") && !l.contains(']') {
                loop {
                    full.push(' ');
                    full.push_str(lines[k].trim());
                    k += 1;
                    if lines[k - 1].contains(']') {
                        break;
                    }
                }
            }
            let toks = lex(&full);
            let mut p = Ps { t: toks, i: 0, m: self };
            let mut dst = None;
            if let (Tok::Local(n), Some(Tok::P('='))) = (p.t[0].clone(), p.t.get(1)) {
                dst = Some(cx.reg(&n));
                p.i = 2;
            }
            let inst = match p.inst(&mut cx) {
                Ok(i) => i,
                Err(e) => Inst::Unsupported(format!("{} in `{}`", e, full.trim())),
            };
            insts.push((dst, inst));
        }
        if let Some(b) = cur {
            blocks.push((b, Block { insts, dbg }));
        }
        let nb = cx.blocks.len();
        let mut v: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
        for (i, b) in blocks {
            v[i as usize] = Some(b);
        }
        let blocks = v.into_iter().map(|b| b.unwrap_or(Block { insts: vec![(None, Inst::Unreachable)], dbg: vec![] })).collect();
        let mut regnames = vec![String::new(); cx.regs.len()];
        for (n, i) in &cx.regs {
            regnames[*i as usize] = n.clone();
        }
        Ok(Func { name, ret, params, nregs: cx.regs.len() as u32, blocks, consts: cx.consts, regnames })
    }
}

impl<'a> Ps<'a> {
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::P('\0'));
        self.i += 1;
        t
    }
    fn peek_p(&self, c: char) -> bool {
        matches!(self.t.get(self.i), Some(Tok::P(x)) if *x == c)
    }
    fn peek_id(&self, s: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.peek_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.peek_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.t.get(self.i)))
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.t.get(self.i) {
                Some(Tok::P('(')) => d += 1,
                Some(Tok::P(')')) => d -= 1,
                None => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.t.get(self.i) {
            Some(Tok::Id(s)) => {
                s == "ptr"
                    || s == "void"
                    || s == "float"
                    || s == "double"
                    || s == "half"
                    || s == "fp128"
                    || s == "bfloat"
                    || s == "x86_fp80"
                    || s == "label"
                    || s == "metadata"
                    || s == "token"
                    || s == "opaque"
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.named.contains_key(n),
            _ => false,
        }
    }
    /// skip attribute words until a type start (used before return types)
    fn skip_attrs(&mut self) {
        loop {
            match self.t.get(self.i) {
                Some(Tok::Id(s)) => {
                    if self.is_type_start() {
                        return;
                    }
                    let s = s.clone();
                    if self.value_kw(&s) {
                        return;
                    }
                    self.i += 1;
                    if PARAM_ATTR_ARG.contains(&s.as_str()) || s == "cc" || s == "addrspace" {
                        if self.peek_p('(') {
                            self.skip_parens();
                        } else if let Some(Tok::Num(_)) = self.t.get(self.i) {
                            self.i += 1;
                        }
                    } else if self.peek_p('(') && s != "asm" {
                        self.skip_parens();
                    }
                }
                Some(Tok::Q(_)) | Some(Tok::Attr) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn value_kw(&self, s: &str) -> bool {
        s.starts_with("f0x") || matches!(
            s,
            "inf" | "pinf" | "qnan" | "nan" | "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc"
                | "zext" | "sext" | "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "splat" | "asm" | "blockaddress" | "dso_local_equivalent" | "icmp" | "select" | "addrspacecast" | "ptrtoaddr" | "no_cfi"
        )
    }
    fn ty(&mut self) -> Result<TyId, String> {
        let mut base = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => self.m.ty(Ty::Void),
                "ptr" => self.m.ty(Ty::Ptr),
                "float" => self.m.ty(Ty::F32),
                "double" => self.m.ty(Ty::F64),
                "half" | "bfloat" => self.m.ty(Ty::FOther(16)),
                "fp128" | "x86_fp80" => self.m.ty(Ty::FOther(128)),
                "label" => self.m.ty(Ty::Label),
                "metadata" | "token" => self.m.ty(Ty::Meta),
                "opaque" => self.m.ty(Ty::Opaque),
                _ if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    let w = s[1..].parse().unwrap();
                    self.m.ty(Ty::Int(w))
                }
                _ => return Err(format!("type {}", s)),
            },
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let e = self.ty()?;
                self.expect(']')?;
                self.m.ty(Ty::Array(n, e))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut fs = vec![];
                    while !self.peek_p('}') {
                        fs.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.expect('}')?;
                    self.expect('>')?;
                    self.m.ty(Ty::Struct(fs, true))
                } else {
                    let n = self.num()?;
                    if !self.eat_id("x") {
                        return Err("x".into());
                    }
                    let e = self.ty()?;
                    self.expect('>')?;
                    self.m.ty(Ty::Vec(n, e))
                }
            }
            Tok::P('{') => {
                let mut fs = vec![];
                while !self.peek_p('}') {
                    fs.push(self.ty()?);
                    self.eat_p(',');
                }
                self.expect('}')?;
                self.m.ty(Ty::Struct(fs, false))
            }
            Tok::Local(n) => *self.m.named.get(&n).ok_or(format!("named type {}", n))?,
            x => return Err(format!("type {:?}", x)),
        };
        // function type suffix
        if self.peek_p('(') && !matches!(self.m.tys[base as usize], Ty::Label) {
            // only treat as function type when followed by a callee later
            let save = self.i;
            self.skip_parens();
            if matches!(self.t.get(self.i), Some(Tok::Global(_)) | Some(Tok::Local(_)) | Some(Tok::Id(_))) {
                // keep the return type
            } else {
                self.i = save;
            }
        }
        let _ = &mut base;
        Ok(base)
    }
    fn num(&mut self) -> Result<u64, String> {
        match self.next() {
            Tok::Num(s) => s.parse().map_err(|_| format!("num {}", s)),
            x => Err(format!("num {:?}", x)),
        }
    }
    fn konst(&mut self, ty: TyId) -> Result<Const, String> {
        let tyv = self.m.tys[ty as usize].clone();
        Ok(match self.next() {
            Tok::Num(s) => match tyv {
                Ty::Int(w) => {
                    let v = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().map_err(|_| format!("bigint {}", s))?).wrapping_neg() } else { s.parse::<u128>().map_err(|_| format!("bigint {}", s))? };
                    let v = if w >= 128 { v } else { v & ((1u128 << w) - 1) };
                    Const::Int(ty, v)
                }
                Ty::F64 | Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else { s.parse::<f64>().map_err(|e| e.to_string())? };
                    if tyv == Ty::F64 {
                        Const::Float(ty, d.to_bits())
                    } else {
                        Const::Float(ty, (d as f32).to_bits() as u64)
                    }
                }
                _ => return Err(format!("num const for {:?}", tyv)),
            },
            Tok::P(sg @ ('+' | '-')) => {
                let neg = sg == '-';
                let v = match self.next() {
                    Tok::Id(s) if s == "inf" => f64::INFINITY,
                    Tok::Id(s) if s == "qnan" || s == "nan" || s == "snan" => {
                        if self.peek_p('(') {
                            self.skip_parens();
                        }
                        f64::NAN
                    }
                    t => return Err(format!("const {}{:?}", sg, t)),
                };
                let v = if neg { -v } else { v };
                Const::Float(ty, if tyv == Ty::F64 { v.to_bits() } else { (v as f32).to_bits() as u64 })
            }
            Tok::Str(b) => Const::Bytes(b),
            Tok::Global(n) => Const::Global(n),
            Tok::P('[') | Tok::P('{') => {
                let mut v = vec![];
                while !(self.peek_p(']') || self.peek_p('}')) {
                    let t = self.ty()?;
                    v.push(self.konst(t)?);
                    self.eat_p(',');
                }
                self.i += 1;
                Const::Agg(ty, v)
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut v = vec![];
                while !(self.peek_p('>') || self.peek_p('}')) {
                    let t = self.ty()?;
                    v.push(self.konst(t)?);
                    self.eat_p(',');
                }
                self.i += 1;
                if st {
                    self.expect('>')?;
                }
                Const::Agg(ty, v)
            }
            Tok::Id(s) => match s.as_str() {
                f if f.starts_with("f0x") => Const::Float(ty, u64::from_str_radix(&f[3..], 16).map_err(|e| e.to_string())?),
                "inf" | "pinf" | "+inf" => Const::Float(ty, if tyv == Ty::F64 { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 }),
                "ninf" => Const::Float(ty, if tyv == Ty::F64 { f64::NEG_INFINITY.to_bits() } else { f32::NEG_INFINITY.to_bits() as u64 }),
                "qnan" | "nan" => Const::Float(ty, if tyv == Ty::F64 { f64::NAN.to_bits() } else { f32::NAN.to_bits() as u64 }),
                "true" => Const::Int(ty, 1),
                "false" => Const::Int(ty, 0),
                "null" => Const::Null,
                "undef" | "poison" | "none" => Const::Undef(ty),
                "zeroinitializer" => Const::Zero(ty),
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.konst(t)?;
                    self.expect(')')?;
                    let n = match tyv {
                        Ty::Vec(n, _) => n,
                        _ => return Err("splat".into()),
                    };
                    Const::Agg(ty, vec![c; n as usize])
                }
                "getelementptr" => {
                    while let Some(Tok::Id(_)) = self.t.get(self.i) {
                        self.i += 1;
                        if self.peek_p('(') && matches!(&self.t[self.i - 1], Tok::Id(s) if s == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.expect('(')?;
                    let bt = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let b = self.konst(pt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let t = self.ty()?;
                        idx.push(self.konst(t)?);
                    }
                    self.expect(')')?;
                    Const::Gep(bt, Box::new(b), idx)
                }
                "ptrtoint" | "ptrtoaddr" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.konst(t)?;
                    self.eat_id("to");
                    let to = self.ty()?;
                    self.expect(')')?;
                    Const::PtrToInt(to, Box::new(c))
                }
                "inttoptr" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.konst(t)?;
                    self.eat_id("to");
                    self.ty()?;
                    self.expect(')')?;
                    Const::IntToPtr(Box::new(c))
                }
                "trunc" | "zext" | "sext" | "bitcast" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.konst(t)?;
                    self.eat_id("to");
                    let to = self.ty()?;
                    self.expect(')')?;
                    Const::Cast(s, to, Box::new(c))
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while let Some(Tok::Id(_)) = self.t.get(self.i) {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    let a = self.konst(t)?;
                    self.expect(',')?;
                    let t2 = self.ty()?;
                    let b = self.konst(t2)?;
                    self.expect(')')?;
                    Const::Bin(s, t, Box::new(a), Box::new(b))
                }
                _ => return Err(format!("const {}", s)),
            },
            x => return Err(format!("const {:?}", x)),
        })
    }
    fn opnd(&mut self, ty: TyId, cx: &mut FnCtx) -> Result<Opnd, String> {
        if let Some(Tok::Local(n)) = self.t.get(self.i) {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::Reg(cx.reg(&n)));
        }
        if matches!(self.m.tys[ty as usize], Ty::Meta) {
            return Err("metadata".into());
        }
        let c = self.konst(ty)?;
        Ok(cx.k(c))
    }
    fn label(&mut self, cx: &mut FnCtx) -> Result<u32, String> {
        if !self.eat_id("label") {
            return Err("label".into());
        }
        match self.next() {
            Tok::Local(n) => Ok(cx.block(&n)),
            _ => Err("label name".into()),
        }
    }
    fn flags(&mut self) {
        while let Some(Tok::Id(s)) = self.t.get(self.i) {
            match s.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile"
                | "weak" | "tail" | "inalloca" => self.i += 1,
                _ => break,
            }
        }
    }
    fn ordering(&mut self) -> u8 {
        if self.eat_id("syncscope") {
            self.i += 3;
        }
        for (n, o) in [("unordered", 0), ("monotonic", 0), ("acquire", 1), ("release", 2), ("acq_rel", 3), ("seq_cst", 3)] {
            if self.eat_id(n) {
                return o;
            }
        }
        3
    }
    fn inst(&mut self, cx: &mut FnCtx) -> Result<Inst, String> {
        let op = match self.next() {
            Tok::Id(s) => s,
            x => return Err(format!("opcode {:?}", x)),
        };
        let bin = match op.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let t = self.ty()?;
            let x = self.opnd(t, cx)?;
            self.expect(',')?;
            let y = self.opnd(t, cx)?;
            return Ok(Inst::Bin(b, t, x, y));
        }
        let cast = match op.as_str() {
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "trunc" => Some(Cast::Trunc),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" => Some(Cast::BitCast),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags();
            let t = self.ty()?;
            let x = self.opnd(t, cx)?;
            self.eat_id("to");
            let to = self.ty()?;
            return Ok(Inst::Cast(c, t, x, to));
        }
        match op.as_str() {
            "fneg" => {
                self.flags();
                let t = self.ty()?;
                let x = self.opnd(t, cx)?;
                Ok(Inst::FNeg(t, x))
            }
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                self.flags();
                let t = self.ty()?;
                let x = self.opnd(t, cx)?;
                self.expect(',')?;
                let y = self.opnd(t, cx)?;
                Ok(Inst::ICmp(p, t, x, y))
            }
            "fcmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Id(s) => s,
                    _ => return Err("pred".into()),
                };
                let t = self.ty()?;
                let x = self.opnd(t, cx)?;
                self.expect(',')?;
                let y = self.opnd(t, cx)?;
                Ok(Inst::FCmp(p, t, x, y))
            }
            "select" => {
                self.flags();
                let ct = self.ty()?;
                let c = self.opnd(ct, cx)?;
                self.expect(',')?;
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                self.ty()?;
                let b = self.opnd(t, cx)?;
                let vc = matches!(self.m.tys[ct as usize], Ty::Vec(..));
                Ok(Inst::Select(t, c, a, b, vc))
            }
            "load" => {
                let atomic = self.eat_id("atomic");
                self.flags();
                let t = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let p = self.opnd(pt, cx)?;
                let o = if atomic { Some(self.ordering()) } else { None };
                Ok(Inst::Load(t, p, o))
            }
            "store" => {
                let atomic = self.eat_id("atomic");
                self.flags();
                let t = self.ty()?;
                let v = self.opnd(t, cx)?;
                self.expect(',')?;
                let pt = self.ty()?;
                let p = self.opnd(pt, cx)?;
                let o = if atomic { Some(self.ordering()) } else { None };
                Ok(Inst::Store(t, v, p, o))
            }
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = cx.k(Const::Int(self.m.ty(Ty::Int(64)), 1));
                let mut al = self.m.layout(t).1;
                while self.eat_p(',') {
                    if self.eat_id("align") {
                        al = self.num()?;
                    } else if self.is_type_start() {
                        let it = self.ty()?;
                        n = self.opnd(it, cx)?;
                    } else {
                        break;
                    }
                }
                Ok(Inst::Alloca(t, n, al))
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let b = self.opnd(pt, cx)?;
                let mut idx = vec![];
                while self.eat_p(',') {
                    if !self.is_type_start() {
                        break;
                    }
                    let it = self.ty()?;
                    let v = self.opnd(it, cx)?;
                    idx.push((it, v));
                }
                if matches!(self.m.tys[pt as usize], Ty::Vec(..)) || idx.iter().any(|(t, _)| matches!(self.m.tys[*t as usize], Ty::Vec(..))) {
                    return Err("vector gep".into());
                }
                Ok(Inst::Gep(t, b, idx))
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                while self.eat_p('[') {
                    let o = self.opnd(t, cx)?;
                    self.expect(',')?;
                    let b = match self.next() {
                        Tok::Local(n) => cx.block(&n),
                        _ => return Err("phi".into()),
                    };
                    self.expect(']')?;
                    v.push((o, b));
                    self.eat_p(',');
                }
                Ok(Inst::Phi(t, v))
            }
            "tail" | "musttail" | "notail" => self.inst(cx),
            "call" => {
                self.flags();
                self.skip_attrs();
                let t = self.ty()?;
                self.skip_attrs();
                let callee = match self.next() {
                    Tok::Global(n) => {
                        if let Some(Const::Global(r)) = self.m.aliases.get(&n) {
                            let r = r.clone();
                            Callee::Direct(self.m.name(&r))
                        } else {
                            Callee::Direct(self.m.name(&n))
                        }
                    }
                    Tok::Local(n) => Callee::Indirect(Opnd::Reg(cx.reg(&n))),
                    Tok::Id(s) if s == "asm" => {
                        let mut q = vec![];
                        while !self.peek_p('(') {
                            if let Some(Tok::Q(x)) = self.t.get(self.i) {
                                q.push(x.clone());
                            }
                            self.i += 1;
                        }
                        q.resize(2, String::new());
                        Callee::Asm(q[0].replace("\\0A", "\n").replace("\\09", " "), q[1].clone())
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                if let Callee::Direct(d) = &callee {
                    let n = &self.m.names[*d as usize];
                    if n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.type.") {
                        return Ok(Inst::Fence(0));
                    }
                }
                self.expect('(')?;
                let mut args = vec![];
                while !self.peek_p(')') {
                    let at = self.ty()?;
                    self.skip_attrs();
                    args.push((at, self.opnd(at, cx)?));
                    self.eat_p(',');
                }
                Ok(Inst::Call(callee, t, args))
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Some(Tok::Num(_)) = self.t.get(self.i) {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Ok(Inst::ExtractValue(t, a, ix))
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                let et = self.ty()?;
                let e = self.opnd(et, cx)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if let Some(Tok::Num(_)) = self.t.get(self.i) {
                        ix.push(self.num()? as u32);
                    } else {
                        break;
                    }
                }
                Ok(Inst::InsertValue(t, a, et, e, ix))
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                let it = self.ty()?;
                let i = self.opnd(it, cx)?;
                Ok(Inst::ExtractElem(t, a, i))
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                let et = self.ty()?;
                let e = self.opnd(et, cx)?;
                self.expect(',')?;
                let it = self.ty()?;
                let i = self.opnd(it, cx)?;
                Ok(Inst::InsertElem(t, a, e, i))
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                self.ty()?;
                let b = self.opnd(t, cx)?;
                self.expect(',')?;
                let mt = self.ty()?;
                let m = self.konst(mt)?;
                let n = match self.m.tys[mt as usize] {
                    Ty::Vec(n, _) => n,
                    _ => return Err("mask".into()),
                };
                let mask = match m {
                    Const::Agg(_, v) => v
                        .into_iter()
                        .map(|c| match c {
                            Const::Int(_, x) => Some(x as u32),
                            _ => None,
                        })
                        .collect(),
                    Const::Zero(_) => vec![Some(0); n as usize],
                    _ => vec![None; n as usize],
                };
                Ok(Inst::Shuffle(t, a, b, mask))
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                Ok(Inst::Freeze(t, a))
            }
            "fence" => Ok(Inst::Fence(self.ordering())),
            "atomicrmw" => {
                self.flags();
                let o = match self.next() {
                    Tok::Id(s) => s,
                    _ => return Err("rmw".into()),
                };
                let pt = self.ty()?;
                let p = self.opnd(pt, cx)?;
                self.expect(',')?;
                let t = self.ty()?;
                let v = self.opnd(t, cx)?;
                let or = self.ordering();
                Ok(Inst::AtomicRmw(o, t, p, v, or))
            }
            "cmpxchg" => {
                let weak = self.peek_id("weak");
                self.flags();
                let pt = self.ty()?;
                let p = self.opnd(pt, cx)?;
                self.expect(',')?;
                let t = self.ty()?;
                let a = self.opnd(t, cx)?;
                self.expect(',')?;
                self.ty()?;
                let b = self.opnd(t, cx)?;
                let so = self.ordering();
                let fo = self.ordering();
                Ok(Inst::CmpXchg(t, p, a, b, weak, so, fo))
            }
            "br" => {
                if self.peek_id("label") {
                    Ok(Inst::Br(self.label(cx)?))
                } else {
                    let t = self.ty()?;
                    let c = self.opnd(t, cx)?;
                    self.expect(',')?;
                    let a = self.label(cx)?;
                    self.expect(',')?;
                    let b = self.label(cx)?;
                    Ok(Inst::CondBr(c, a, b))
                }
            }
            "switch" => {
                let t = self.ty()?;
                let c = self.opnd(t, cx)?;
                self.expect(',')?;
                let d = self.label(cx)?;
                self.expect('[')?;
                let mut v = vec![];
                while !self.peek_p(']') {
                    let ct = self.ty()?;
                    let k = match self.konst(ct)? {
                        Const::Int(_, k) => k,
                        _ => return Err("case".into()),
                    };
                    self.expect(',')?;
                    let l = self.label(cx)?;
                    v.push((k, l));
                }
                Ok(Inst::Switch(t, c, d, v))
            }
            "ret" => {
                if self.peek_id("void") {
                    return Ok(Inst::Ret(None));
                }
                let t = self.ty()?;
                let v = self.opnd(t, cx)?;
                Ok(Inst::Ret(Some((t, v))))
            }
            "unreachable" => Ok(Inst::Unreachable),
            _ => Err(format!("opcode {}", op)),
        }
    }
}

/// Names of the source functions (also inlined ones) the given debug locations belong to.
pub fn source_functions(text: &str, locs: &std::collections::HashSet<u32>) -> std::collections::BTreeSet<String> {
    let mut md: HashMap<u32, &str> = HashMap::new();
    for l in text.lines() {
        if !l.starts_with('!') || !(l.contains("DILocation(") || l.contains("DISubprogram(") || l.contains("DILexicalBlock") || l.contains("DIFile(") || l.contains("DINamespace(")) {
            continue;
        }
        if let Some((a, b)) = l[1..].split_once(" = ") {
            if let Ok(i) = a.parse() {
                md.insert(i, b);
            }
        }
    }
    let field = |s: &str, f: &str| -> Option<String> {
        let k = format!("{}: ", f);
        let i = s.find(&format!("({}", k)).map(|i| i + 1).or_else(|| s.find(&format!(" {}", k)).map(|i| i + 1))?;
        let r = &s[i + k.len()..];
        if let Some(q) = r.strip_prefix('"') {
            return Some(q[..q.find('"')?].to_string());
        }
        Some(r.chars().take_while(|c| *c != ',' && *c != ')').collect())
    };
    let mref = |s: &str, f: &str| -> Option<u32> { field(s, f)?.strip_prefix('!')?.parse().ok() };
    let mut out = std::collections::BTreeSet::new();
    let mut seen = std::collections::HashSet::new();
    let mut work: Vec<u32> = locs.iter().copied().collect();
    while let Some(i) = work.pop() {
        if !seen.insert(i) {
            continue;
        }
        let Some(s) = md.get(&i) else { continue };
        if s.contains("DISubprogram(") {
            let file = mref(s, "file").and_then(|f| md.get(&f)).and_then(|f| field(f, "filename")).unwrap_or_default();
            let mut name = field(s, "name").unwrap_or_default();
            let mut sc = mref(s, "scope");
            let mut k = 0;
            while let Some(n) = sc.and_then(|x| md.get(&x)) {
                if !n.contains("DINamespace(") || k > 10 {
                    break;
                }
                name = format!("{}::{}", field(n, "name").unwrap_or_default(), name);
                sc = mref(n, "scope");
                k += 1;
            }
            out.insert(format!("{}\t{}\t{}", file, name, field(s, "line").unwrap_or_default()));
        } else {
            work.extend(mref(s, "scope"));
            work.extend(mref(s, "inlinedAt"));
        }
    }
    out
}
