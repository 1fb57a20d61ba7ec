//! Reader for the textual LLVM IR rustc emits (unoptimised). Function bodies are parsed lazily.
use crate::fx::Map;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// Number of bytes a load/store touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field of scalar"),
        }
    }
    /// Width in bits of a scalar (vectors are one wide word, lane 0 lowest).
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vec(..)) }
    pub fn lanes(&self) -> (u32, u32) {
        match self {
            Ty::Vec(n, t) => (*n, t.bits()),
            t => (1, t.bits()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u128),
    Undef(Ty),
    Zero(Ty),
    Sym(String),
    Bytes(Vec<u8>),
    Agg(Ty, Vec<Const>),
    Off(Box<Const>, i64),
    Cast(Box<Const>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bit }

#[derive(Clone, Debug)]
pub enum Op {
    Alloca { size: u64, align: u64 },
    Load { ty: Ty, ptr: Opd, align: u64, volatile: bool, atomic: bool, noundef: bool },
    Store { ty: Ty, val: Opd, ptr: Opd, align: u64, volatile: bool, atomic: bool },
    Gep { base: Opd, off: i64, terms: Vec<(Opd, u32, u64)>, inb: bool },
    Bin { op: BinOp, ty: Ty, a: Opd, b: Opd, nuw: bool, nsw: bool },
    Icmp { pred: Pred, ty: Ty, a: Opd, b: Opd },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, a: Opd },
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty },
    ExtractValue { a: Opd, ty: Ty, idx: Vec<usize> },
    InsertValue { a: Opd, ty: Ty, v: Opd, idx: Vec<usize> },
    ExtractElement { ty: Ty, a: Opd, i: Opd },
    InsertElement { ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { ty: Ty, a: Opd, b: Opd, mask: Vec<i64> },
    Freeze { a: Opd, ty: Ty },
    AtomicRmw { kind: String, ptr: Opd, ty: Ty, v: Opd },
    CmpXchg { ptr: Opd, ty: Ty, cmp: Opd, new: Opd },
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(String, usize), // name, resolved function id + 1 (0: unresolved)
    Reg(u32),
    Asm(String),
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub op: Op,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub enum Term {
    Ret(Option<(Ty, Opd)>),
    Br(usize),
    CondBr(Opd, usize, usize),
    Switch { ty: Ty, v: Opd, default: usize, cases: Vec<(u128, usize)> },
    Unreachable,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(Opd, usize)>,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub term: Term,
    pub tdbg: u32,
}

impl Block {
    pub fn succs(&self) -> Vec<usize> {
        match &self.term {
            Term::Ret(_) | Term::Unreachable => vec![],
            Term::Br(t) => vec![*t],
            Term::CondBr(_, t, e) => vec![*t, *e],
            Term::Switch { default, cases, .. } => cases.iter().map(|c| c.1).chain([*default]).collect(),
        }
    }
}
fn loop_heads(blocks: &[Block]) -> Vec<bool> {
    let mut heads = vec![false; blocks.len()];
    let mut seen = vec![0u8; blocks.len()];
    let mut todo = vec![(0usize, 0usize)];
    if blocks.is_empty() { return heads; }
    seen[0] = 1;
    while let Some((b, i)) = todo.pop() {
        let s = blocks[b].succs();
        if i == s.len() { seen[b] = 2; continue; }
        todo.push((b, i + 1));
        match seen[s[i]] { 0 => { seen[s[i]] = 1; todo.push((s[i], 0)); } 1 => heads[s[i]] = true, _ => {} }
    }
    heads
}

pub const EXIT: usize = usize::MAX;
pub const NONE: usize = usize::MAX - 1;

#[derive(Debug)]
pub struct Func {
    pub params: Vec<(Ty, u32, bool)>, // type, reg, sret
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub ipdom: Vec<usize>,
    /// Targets of back edges.
    pub heads: Vec<bool>,
    pub subprogram: u32,
}

pub struct FuncEntry {
    pub id: usize,
    pub module: usize,
    pub name: String,
    pub pretty: String,
    pub start: usize, // byte range of the whole definition
    pub end: usize,
    pub attrs: u32,
    pub noreturn: bool,
    pub features: Vec<String>,
    pub parsed: OnceLock<Result<Arc<Func>, String>>,
}

pub struct GlobalEntry {
    pub module: usize,
    pub name: String,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    pub line: (usize, usize),
    pub init_at: usize,
}

pub struct Module {
    pub text: String,
    pub krate: String,
    pub funcs: Map<String, usize>,
    pub globals: Map<String, usize>,
    pub types: Map<String, (usize, usize)>,
    pub attrs: Map<u32, (bool, Vec<String>)>,
    pub meta: Vec<u32>, // byte offset of "!N = "
    pub decl_noreturn: Map<String, bool>,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub funcs: Vec<FuncEntry>,
    pub globals: Vec<GlobalEntry>,
    pub ext_funcs: Map<String, usize>,
    pub ext_globals: Map<String, usize>,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Reg(std::borrow::Cow<'a, str>),
    Glob(std::borrow::Cow<'a, str>),
    Meta(&'a str),
    Attr(u32),
    Str(&'a str),
    CStr(&'a str),
    Num(&'a str),
    P(u8),
    End,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

fn ident_char(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self { Lex { s, b: s.as_bytes(), i: 0 } }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.b[j] != b'"' { j += 1; }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn next(&mut self) -> Tok<'a> {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t') { self.i += 1; }
        if self.i >= self.b.len() { return Tok::End; }
        let c = self.b[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n: std::borrow::Cow<'a, str> = if self.b.get(self.i) == Some(&b'"') {
                    let q = self.quoted();
                    if q.contains('\\') { std::borrow::Cow::Owned(String::from_utf8_lossy(&unescape(q)).into_owned()) } else { q.into() }
                } else {
                    let st = self.i;
                    while self.i < self.b.len() && ident_char(self.b[self.i]) { self.i += 1; }
                    (&self.s[st..self.i]).into()
                };
                if c == b'%' { Tok::Reg(n) } else { Tok::Glob(n) }
            }
            b'!' => {
                let st = self.i + 1;
                self.i += 1;
                if self.b.get(self.i) == Some(&b'"') { self.quoted(); }
                while self.i < self.b.len() && ident_char(self.b[self.i]) { self.i += 1; }
                Tok::Meta(&self.s[st..self.i])
            }
            b'#' => {
                self.i += 1;
                let st = self.i;
                while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1; }
                Tok::Attr(self.s[st..self.i].parse().unwrap_or(0))
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.b.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (ident_char(self.b[self.i]) || self.b[self.i] == b'+') { self.i += 1; }
                Tok::Num(&self.s[st..self.i])
            }
            b'.' => {
                // ellipsis
                self.i += 3;
                Tok::Word("...")
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.b.len() && ident_char(self.b[self.i]) { self.i += 1; }
                Tok::Word(&self.s[st..self.i])
            }
            b';' => {
                while self.i < self.b.len() && self.b[self.i] != b'\n' { self.i += 1; }
                self.next()
            }
            c => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let i = self.i;
        if self.next() == Tok::P(c) { true } else { self.i = i; false }
    }
    fn eatw(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.next() == Tok::Word(w) { true } else { self.i = i; false }
    }
    /// Skips a balanced group whose opening bracket is next.
    fn skip_group(&mut self) {
        let mut d = 0i32;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => {
                    d -= 1;
                    if d == 0 { return; }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

type R<T> = Result<T, String>;

fn is_int_word(w: &str) -> Option<u32> {
    let r = w.strip_prefix('i')?;
    if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) { return None; }
    r.parse().ok()
}

struct P<'a> {
    l: Lex<'a>,
    m: &'a Module,
    regs: Map<String, u32>,
    labels: Map<String, usize>,
}

impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> Self { P { l: Lex::new(s), m, regs: Map::default(), labels: Map::default() } }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn type_start(&mut self) -> bool {
        match self.l.peek() {
            Tok::Word(w) => is_int_word(w).is_some() || matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token"),
            Tok::Reg(_) => true,
            Tok::P(c) => matches!(c, b'[' | b'{' | b'<'),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        Ok(match self.l.next() {
            Tok::Word(w) => {
                if let Some(n) = is_int_word(w) { Ty::Int(n) } else {
                    match w {
                        "void" => Ty::Void,
                        "ptr" => {
                            if self.l.eatw("addrspace") { self.l.skip_group(); }
                            Ty::Ptr
                        }
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "half" | "bfloat" => Ty::Float(16),
                        "fp128" | "x86_fp80" => Ty::Float(128),
                        _ => Ty::Other,
                    }
                }
            }
            Tok::Reg(n) => {
                let (a, b) = *self.m.types.get(&*n).ok_or_else(|| format!("unknown type {n}"))?;
                let m = self.m;
                let mut p = P::new(&m.text[a..b], m);
                p.ty()?
            }
            Tok::P(b'[') => {
                let n = self.num()?;
                if !self.l.eatw("x") { return Err("array x".into()); }
                let t = self.ty()?;
                self.l.eat(b']');
                Ty::Arr(n as u64, Box::new(t))
            }
            Tok::P(b'<') => {
                if self.l.eat(b'{') {
                    let f = self.tylist(b'}')?;
                    self.l.eat(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()?;
                    if !self.l.eatw("x") { return Err("vector x".into()); }
                    let t = self.ty()?;
                    self.l.eat(b'>');
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            Tok::P(b'{') => Ty::Struct(self.tylist(b'}')?, false),
            t => return Err(format!("type expected, got {t:?}")),
        })
    }
    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.l.eat(end) { return Ok(v); }
        loop {
            v.push(self.ty()?);
            if self.l.eat(b',') { continue; }
            if self.l.eat(end) { return Ok(v); }
            return Err("type list".into());
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.l.next() {
            Tok::Num(n) => n.parse().map_err(|_| format!("number {n}")),
            t => Err(format!("number expected {t:?}")),
        }
    }
    /// Skips attributes in front of a type or value.
    fn skip_attrs_until_type(&mut self) {
        while !self.type_start() {
            match self.l.next() {
                Tok::End => return,
                Tok::Word("align") => {
                    if let Tok::Num(_) = self.l.peek() { self.l.next(); }
                    else if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); }
                }
                _ => if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); },
            }
        }
    }
    fn skip_param_attrs(&mut self) -> bool {
        let mut sret = false;
        loop {
            match self.l.peek() {
                Tok::Word(w) if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "blockaddress" | "asm" | "add" | "sub" | "xor" | "bitcast" | "trunc") => return sret,
                Tok::Word(w) => {
                    if w == "sret" { sret = true; }
                    self.l.next();
                    if w == "align" { if let Tok::Num(_) = self.l.peek() { self.l.next(); } }
                    if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); }
                }
                Tok::Str(_) => {
                    self.l.next();
                    if self.l.eat(b'=') { self.l.next(); }
                }
                _ => return sret,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<Const> {
        match self.opd(ty)? {
            Opd::C(c) => Ok(c),
            Opd::Reg(_) => Err("constant expected".into()),
        }
    }
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        let c = match self.l.next() {
            Tok::Reg(n) => { let n = n.into_owned(); return Ok(Opd::Reg(self.reg(&n))); }
            Tok::Num(n) => match ty {
                Ty::Int(w) => {
                    let v = if let Some(x) = n.strip_prefix('-') {
                        x.parse::<u128>().map(|v| v.wrapping_neg())
                    } else { n.parse::<u128>() };
                    match v {
                        Ok(v) => Const::Int(*w, if *w >= 128 { v } else { v & ((1u128 << w) - 1) }),
                        Err(_) => Const::Bad(format!("int {n}")),
                    }
                }
                _ => Const::Bad(format!("float {n}")),
            },
            Tok::Word("true") => Const::Int(1, 1),
            Tok::Word("false") => Const::Int(1, 0),
            Tok::Word("null") => Const::Int(64, 0),
            Tok::Word("undef") | Tok::Word("poison") => Const::Undef(ty.clone()),
            Tok::Word("zeroinitializer") | Tok::Word("none") => Const::Zero(ty.clone()),
            Tok::Glob(n) => Const::Sym(n.into_owned()),
            Tok::CStr(s) => Const::Bytes(unescape(s)),
            Tok::P(b'[') | Tok::P(b'{') => {
                let end = if self.l.b[self.l.i - 1] == b'[' { b']' } else { b'}' };
                Const::Agg(ty.clone(), self.aggr(end)?)
            }
            Tok::P(b'<') => {
                if self.l.eat(b'{') {
                    let v = self.aggr(b'}')?;
                    self.l.eat(b'>');
                    Const::Agg(ty.clone(), v)
                } else { Const::Agg(ty.clone(), self.aggr(b'>')?) }
            }
            Tok::Word("splat") => {
                self.l.eat(b'(');
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.l.eat(b')');
                let n = match ty { Ty::Vec(n, _) => *n as usize, Ty::Arr(n, _) => *n as usize, _ => 1 };
                Const::Agg(ty.clone(), vec![v; n])
            }
            Tok::Word("getelementptr") => {
                self.skip_gep_flags();
                self.l.eat(b'(');
                let t = self.ty()?;
                self.l.eat(b',');
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let (off, terms) = self.gep_indices(&t)?;
                self.l.eat(b')');
                if !terms.is_empty() { return Err("gep constexpr with registers".into()); }
                Const::Off(Box::new(base), off)
            }
            Tok::Word("ptrtoint") | Tok::Word("inttoptr") | Tok::Word("bitcast") => {
                self.l.eat(b'(');
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.l.eatw("to");
                self.ty()?;
                self.l.eat(b')');
                Const::Cast(Box::new(v))
            }
            Tok::Word(w) => {
                let w = w.to_string();
                if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); }
                Const::Bad(w)
            }
            t => return Err(format!("operand expected, got {t:?}")),
        };
        Ok(Opd::C(c))
    }
    fn aggr(&mut self, end: u8) -> R<Vec<Const>> {
        let mut v = vec![];
        if self.l.eat(end) { return Ok(v); }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.l.eat(b',') { continue; }
            if self.l.eat(end) { return Ok(v); }
            return Err("aggregate".into());
        }
    }
    fn skip_gep_flags(&mut self) -> bool {
        let mut inb = false;
        loop {
            match self.l.peek() {
                Tok::Word("inbounds") => { inb = true; self.l.next(); }
                Tok::Word("nuw") | Tok::Word("nusw") => { self.l.next(); }
                Tok::Word("inrange") => { self.l.next(); self.l.skip_group(); }
                _ => return inb,
            }
        }
    }
    fn gep_indices(&mut self, t: &Ty) -> R<(i64, Vec<(Opd, u32, u64)>)> {
        let mut off = 0i64;
        let mut terms = vec![];
        let mut cur = t.clone();
        let mut first = true;
        while self.l.eat(b',') {
            if let Tok::Meta(_) = self.l.peek() {
                // trailing metadata
                self.l.i -= 1;
                break;
            }
            let it = self.ty()?;
            let v = self.opd(&it)?;
            let (scale, next) = if first { (cur.size(), cur.clone()) } else {
                match &cur {
                    Ty::Arr(_, e) => (e.size(), (**e).clone()),
                    Ty::Vec(_, e) => (e.size(), (**e).clone()),
                    Ty::Struct(f, _) => {
                        let i = match &v { Opd::C(Const::Int(_, k)) => *k as usize, Opd::C(Const::Zero(_)) => 0, _ => return Err("struct index".into()) };
                        off += cur.field_offset(i) as i64;
                        (0, f[i].clone())
                    }
                    _ => return Err("gep into scalar".into()),
                }
            };
            let is_struct = !first && matches!(cur, Ty::Struct(..));
            first = false;
            if !is_struct {
                match &v {
                    Opd::C(Const::Int(w, k)) => {
                        let sh = 128 - *w;
                        let s = ((*k << sh) as i128) >> sh;
                        off = off.wrapping_add((s as i64).wrapping_mul(scale as i64));
                    }
                    _ => terms.push((v, it.bits(), scale)),
                }
            }
            cur = next;
        }
        Ok((off, terms))
    }
    fn label(&mut self) -> R<usize> {
        if !self.l.eatw("label") { return Err("label".into()); }
        match self.l.next() {
            Tok::Reg(n) => self.labels.get(&*n).copied().ok_or_else(|| format!("label {n}")),
            t => Err(format!("label name {t:?}")),
        }
    }
    fn align(&mut self) -> u64 {
        // ", align N" somewhere next; ignore the rest
        while self.l.eat(b',') {
            if self.l.eatw("align") { if let Ok(n) = self.num() { return n as u64; } }
            else { return 1; }
        }
        1
    }
    fn idxlist(&mut self) -> Vec<usize> {
        let mut v = vec![];
        loop {
            let i = self.l.i;
            if !self.l.eat(b',') { break; }
            match self.l.next() {
                Tok::Num(n) => v.push(n.parse().unwrap_or(0)),
                _ => { self.l.i = i; break; }
            }
        }
        v
    }
    fn rest_dbg(&mut self) -> u32 {
        loop {
            match self.l.next() {
                Tok::End => return 0,
                Tok::Meta("dbg") => if let Tok::Meta(n) = self.l.next() { return n.parse().unwrap_or(0); },
                _ => {}
            }
        }
    }
    fn call(&mut self) -> R<Op> {
        self.skip_attrs_until_type();
        let ret = self.ty()?;
        if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); }
        let callee = match self.l.next() {
            Tok::Glob(n) => Callee::Sym(n.into_owned(), 0),
            Tok::Reg(n) => { let n = n.into_owned(); Callee::Reg(self.reg(&n)) }
            Tok::Word("asm") => {
                let mut s = String::new();
                loop {
                    match self.l.peek() {
                        Tok::P(b'(') => break,
                        Tok::Str(x) => { s.push_str(x); s.push('|'); self.l.next(); }
                        Tok::End => break,
                        _ => { self.l.next(); }
                    }
                }
                Callee::Asm(s)
            }
            t => Callee::Bad(format!("{t:?}")),
        };
        let mut args = vec![];
        if !self.l.eat(b'(') { return Err("call args".into()); }
        if !self.l.eat(b')') {
            loop {
                if let Tok::Word("metadata") = self.l.peek() {
                    // intrinsic with metadata operand: skip everything
                    let mut d = 1;
                    while d > 0 {
                        match self.l.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::End => break, _ => {} }
                    }
                    break;
                }
                let t = self.ty()?;
                self.skip_param_attrs();
                let v = self.opd(&t)?;
                args.push((t, v));
                if self.l.eat(b',') { continue; }
                if self.l.eat(b')') { break; }
                return Err("call arg list".into());
            }
        }
        Ok(Op::Call { callee, args, ret })
    }
    fn inst(&mut self, opname: &str) -> R<Op> {
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None })
        };
        if let Some(op) = bin(opname) {
            let (mut nuw, mut nsw) = (false, false);
            loop {
                match self.l.peek() {
                    Tok::Word("nuw") => { nuw = true; self.l.next(); }
                    Tok::Word("nsw") => { nsw = true; self.l.next(); }
                    Tok::Word("exact") | Tok::Word("disjoint") => { self.l.next(); }
                    _ => break,
                }
            }
            let ty = self.ty()?;
            let a = self.opd(&ty)?;
            self.l.eat(b',');
            let b = self.opd(&ty)?;
            return Ok(Op::Bin { op, ty, a, b, nuw, nsw });
        }
        Ok(match opname {
            "alloca" => {
                self.l.eatw("inalloca");
                let t = self.ty()?;
                let mut n = 1u64;
                let i = self.l.i;
                if self.l.eat(b',') {
                    if self.type_start() {
                        let it = self.ty()?;
                        match self.opd(&it)? { Opd::C(Const::Int(_, k)) => n = k as u64, _ => return Ok(Op::Unsupported("dynamic alloca".into())) }
                    } else { self.l.i = i; }
                }
                let al = self.align();
                Op::Alloca { size: t.size() * n, align: al.max(1) }
            }
            "load" => {
                let (mut v, mut at) = (false, false);
                loop { if self.l.eatw("volatile") { v = true } else if self.l.eatw("atomic") { at = true } else { break } }
                let ty = self.ty()?;
                self.l.eat(b',');
                let pt = self.ty()?;
                let ptr = self.opd(&pt)?;
                while let Tok::Word(_) = self.l.peek() { self.l.next(); if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); } }
                let align = self.align();
                Op::Load { ty, ptr, align, volatile: v, atomic: at, noundef: false }
            }
            "store" => {
                let (mut v, mut at) = (false, false);
                loop { if self.l.eatw("volatile") { v = true } else if self.l.eatw("atomic") { at = true } else { break } }
                let ty = self.ty()?;
                let val = self.opd(&ty)?;
                self.l.eat(b',');
                let pt = self.ty()?;
                let ptr = self.opd(&pt)?;
                while let Tok::Word(_) = self.l.peek() { self.l.next(); if self.l.peek() == Tok::P(b'(') { self.l.skip_group(); } }
                let align = self.align();
                Op::Store { ty, val, ptr, align, volatile: v, atomic: at }
            }
            "getelementptr" => {
                let inb = self.skip_gep_flags();
                let t = self.ty()?;
                self.l.eat(b',');
                let pt = self.ty()?;
                if pt != Ty::Ptr { return Ok(Op::Unsupported("vector gep".into())); }
                let base = self.opd(&pt)?;
                let (off, terms) = self.gep_indices(&t)?;
                Op::Gep { base, off, terms, inb }
            }
            "icmp" => {
                self.l.eatw("samesign");
                let pred = match self.l.next() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err(format!("pred {w}")) },
                    t => return Err(format!("pred {t:?}")),
                };
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let b = self.opd(&ty)?;
                Op::Icmp { pred, ty, a, b }
            }
            "select" => {
                let cty = self.ty()?;
                let c = self.opd(&cty)?;
                self.l.eat(b',');
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let t2 = self.ty()?;
                let b = self.opd(&t2)?;
                Op::Select { cty, ty, c, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while let Tok::Word("nuw") | Tok::Word("nsw") | Tok::Word("nneg") = self.l.peek() { self.l.next(); }
                let from = self.ty()?;
                let a = self.opd(&from)?;
                self.l.eatw("to");
                let to = self.ty()?;
                let op = match opname {
                    "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "bitcast" => CastOp::Bit,
                    _ => if to.bits() < from.bits() { CastOp::Trunc } else if to.bits() > from.bits() { CastOp::ZExt } else { CastOp::Bit },
                };
                Op::Cast { op, from, to, a }
            }
            "extractvalue" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                let idx = self.idxlist();
                Op::ExtractValue { a, ty, idx }
            }
            "insertvalue" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let vt = self.ty()?;
                let v = self.opd(&vt)?;
                let idx = self.idxlist();
                Op::InsertValue { a, ty, v, idx }
            }
            "extractelement" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let it = self.ty()?;
                let i = self.opd(&it)?;
                Op::ExtractElement { ty, a, i }
            }
            "insertelement" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let vt = self.ty()?;
                let v = self.opd(&vt)?;
                self.l.eat(b',');
                let it = self.ty()?;
                let i = self.opd(&it)?;
                Op::InsertElement { ty, a, v, i }
            }
            "shufflevector" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.l.eat(b',');
                let bt = self.ty()?;
                let b = self.opd(&bt)?;
                self.l.eat(b',');
                let mt = self.ty()?;
                let m = self.konst(&mt)?;
                let n = match &mt { Ty::Vec(n, _) => *n as usize, _ => 0 };
                let mask = match m {
                    Const::Agg(_, v) => v.into_iter().map(|c| match c { Const::Int(_, k) => k as i64, _ => -1 }).collect(),
                    Const::Zero(_) => vec![0; n],
                    _ => vec![-1; n],
                };
                Op::Shuffle { ty, a, b, mask }
            }
            "freeze" => {
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                Op::Freeze { a, ty }
            }
            "tail" | "notail" | "musttail" => {
                self.l.eatw("call");
                self.call()?
            }
            "call" => self.call()?,
            "fence" => Op::Fence,
            "atomicrmw" => {
                self.l.eatw("volatile");
                let kind = match self.l.next() { Tok::Word(w) => w.to_string(), _ => String::new() };
                let pt = self.ty()?;
                let ptr = self.opd(&pt)?;
                self.l.eat(b',');
                let ty = self.ty()?;
                let v = self.opd(&ty)?;
                Op::AtomicRmw { kind, ptr, ty, v }
            }
            "cmpxchg" => {
                self.l.eatw("weak");
                self.l.eatw("volatile");
                let pt = self.ty()?;
                let ptr = self.opd(&pt)?;
                self.l.eat(b',');
                let ty = self.ty()?;
                let cmp = self.opd(&ty)?;
                self.l.eat(b',');
                self.ty()?;
                let new = self.opd(&ty)?;
                Op::CmpXchg { ptr, ty, cmp, new }
            }
            o => Op::Unsupported(o.to_string()),
        })
    }
}

/// Parses attribute groups: noreturn and the extra target features.
fn parse_attr_line(l: &str) -> (bool, Vec<String>) {
    let nr = l.contains(" noreturn");
    let mut f = vec![];
    if let Some(i) = l.find("\"target-features\"=\"") {
        let s = &l[i + 19..];
        if let Some(e) = s.find('"') { f = s[..e].split(',').filter_map(|x| x.strip_prefix('+')).map(|s| s.to_string()).collect(); }
    }
    (nr, f)
}

impl Program {
    pub fn load(files: &[(String, String)]) -> R<Program> {
        let mut pr = Program { modules: vec![], funcs: vec![], globals: vec![], ext_funcs: Map::default(), ext_globals: Map::default() };
        for (krate, path) in files {
            let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
            pr.add_module(krate.clone(), text)?;
        }
        Ok(pr)
    }
    fn add_module(&mut self, krate: String, text: String) -> R<()> {
        let mi = self.modules.len();
        let mut m = Module { text: String::new(), krate, funcs: Map::default(), globals: Map::default(), types: Map::default(), attrs: Map::default(), meta: vec![], decl_noreturn: Map::default() };
        let b = text.as_bytes();
        let mut i = 0;
        let mut comment: &str = "";
        let mut pend: Vec<(usize, u32)> = vec![];
        let mut decls: Vec<(String, u32)> = vec![];
        while i < b.len() {
            let e = memchr(b, i);
            let line = &text[i..e];
            match b[i] {
                b';' => {
                    if !line.starts_with("; Function Attrs") { comment = line[1..].trim(); }
                }
                b'@' => {
                    let mut lx = Lex::new(line);
                    if let Tok::Glob(n) = lx.next() {
                        lx.eat(b'=');
                        let mut local = false;
                        let (mut konst, mut tls, mut ext) = (false, false, false);
                        let mut ok = false;
                        loop {
                            match lx.next() {
                                Tok::Word(w) => match w {
                                    "internal" | "private" => local = true,
                                    "external" => ext = true,
                                    "thread_local" => { tls = true; if lx.peek() == Tok::P(b'(') { lx.skip_group(); } }
                                    "constant" => { konst = true; ok = true; break; }
                                    "global" => { ok = true; break; }
                                    "alias" | "ifunc" => break,
                                    "addrspace" => lx.skip_group(),
                                    _ => {}
                                },
                                Tok::End => break,
                                _ => {}
                            }
                        }
                        if ok {
                            let gid = self.globals.len();
                            let name = n.into_owned();
                            self.globals.push(GlobalEntry { module: mi, name: name.clone(), constant: konst, tls, external: ext, line: (i, e), init_at: i + lx.i });
                            if !ext {
                                m.globals.insert(name.clone(), gid);
                                if !local { self.ext_globals.entry(name).or_insert(gid); }
                            } else { m.globals.entry(name).or_insert(gid); }
                        }
                    }
                }
                b'%' => {
                    let mut lx = Lex::new(line);
                    if let Tok::Reg(n) = lx.next() {
                        lx.eat(b'=');
                        lx.eatw("type");
                        m.types.insert(n.into_owned(), (i + lx.i, e));
                    }
                }
                b'd' if line.starts_with("declare") => {
                    let mut lx = Lex::new(line);
                    let (mut name, mut at) = (None, 0);
                    loop {
                        match lx.next() {
                            Tok::Glob(n) if name.is_none() => name = Some(n.into_owned()),
                            Tok::Attr(a) => at = a,
                            Tok::End => break,
                            _ => {}
                        }
                    }
                    if let Some(n) = name { decls.push((n, at)); }
                    comment = "";
                }
                b'd' if line.starts_with("define") => {
                    // header tokens
                    let mut lx = Lex::new(line);
                    lx.next();
                    let mut local = false;
                    let mut name = String::new();
                    let mut at = 0;
                    loop {
                        match lx.next() {
                            Tok::Word("internal") | Tok::Word("private") if name.is_empty() => local = true,
                            Tok::Glob(n) if name.is_empty() => { name = n.into_owned(); lx.skip_group(); }
                            Tok::Attr(a) => at = a,
                            Tok::End => break,
                            _ => {}
                        }
                    }
                    // body end: line "}"
                    let mut j = e + 1;
                    loop {
                        let k = memchr(b, j);
                        if &b[j..k] == b"}" { j = k; break; }
                        j = k + 1;
                        if j >= b.len() { return Err("unterminated function".into()); }
                    }
                    let id = self.funcs.len();
                    self.funcs.push(FuncEntry { id, module: mi, name: name.clone(), pretty: comment.to_string(), start: i, end: j, attrs: at, noreturn: false, features: vec![], parsed: OnceLock::new() });
                    comment = "";
                    pend.push((id, at));
                    m.funcs.insert(name.clone(), id);
                    if !local { self.ext_funcs.entry(name).or_insert(id); }
                    i = j + 1;
                    continue;
                }
                b'a' if line.starts_with("attributes #") => {
                    let n: u32 = line[12..].split(' ').next().unwrap().parse().unwrap_or(0);
                    m.attrs.insert(n, parse_attr_line(line));
                }
                b'!' if b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) => {
                    let sp = line.find(' ').unwrap_or(line.len());
                    if let Ok(n) = line[1..sp].parse::<usize>() {
                        if m.meta.len() <= n { m.meta.resize(n + 1, u32::MAX); }
                        m.meta[n] = i as u32;
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        for (id, at) in pend {
            if let Some((nr, f)) = m.attrs.get(&at) {
                self.funcs[id].noreturn = *nr;
                self.funcs[id].features = f.clone();
            }
        }
        for (n, at) in decls {
            let nr = m.attrs.get(&at).map_or(false, |a| a.0);
            m.decl_noreturn.insert(n, nr);
        }
        m.text = text;
        self.modules.push(m);
        Ok(())
    }
    pub fn find(&self, name: &str) -> Option<usize> { self.ext_funcs.get(name).copied() }
    pub fn resolve_fn(&self, module: usize, name: &str) -> Option<usize> {
        self.modules[module].funcs.get(name).copied().or_else(|| self.ext_funcs.get(name).copied())
    }
    pub fn resolve_global(&self, module: usize, name: &str) -> Option<usize> {
        match self.modules[module].globals.get(name) {
            Some(&g) if !self.globals[g].external => Some(g),
            Some(&g) => Some(self.ext_globals.get(name).copied().unwrap_or(g)),
            None => self.ext_globals.get(name).copied(),
        }
    }
    /// Type and initialiser of a global.
    pub fn global_init(&self, g: usize) -> R<(Ty, Option<Const>, u64)> {
        let ge = &self.globals[g];
        let m = &self.modules[ge.module];
        let line = &m.text[ge.init_at..ge.line.1];
        let mut p = P::new(line, m);
        let ty = p.ty()?;
        let c = if ge.external { None } else { Some(p.konst(&ty)?) };
        let al = p.align();
        Ok((ty, c, al))
    }
    /// Initial bytes of a constant that holds no pointers.
    pub fn const_bytes(&self, name: &str) -> Option<Vec<u8>> {
        let g = self.globals.iter().position(|g| g.name == name && !g.external)?;
        let (ty, c, _) = self.global_init(g).ok()?;
        fn flat(t: &Ty, c: &Const, o: &mut Vec<u8>) -> Option<()> {
            match (t, c) {
                (_, Const::Zero(t)) => o.extend(std::iter::repeat(0).take(t.size() as usize)),
                (_, Const::Bytes(b)) => o.extend_from_slice(b),
                (_, Const::Int(w, k)) => for i in 0..(*w as usize + 7) / 8 { o.push((k >> (8 * i)) as u8); },
                (Ty::Struct(f, _), Const::Agg(_, v)) => for (t, x) in f.iter().zip(v) { flat(t, x, o)?; },
                (Ty::Arr(_, t), Const::Agg(_, v)) => for x in v { flat(t, x, o)?; },
                _ => return None,
            }
            Some(())
        }
        let mut o = vec![];
        flat(&ty, &c?, &mut o)?;
        Some(o)
    }
    pub fn const_u64(&self, name: &str) -> Option<u64> {
        let b = self.const_bytes(name)?;
        if b.len() > 8 { return None; }
        Some(b.iter().rev().fold(0, |a, x| a << 8 | *x as u64))
    }
    pub fn func(&self, id: usize) -> R<Arc<Func>> {
        let fe = &self.funcs[id];
        fe.parsed.get_or_init(|| self.parse_func(fe).map(Arc::new).map_err(|e| format!("{}: {e}", fe.name))).clone()
    }
    fn parse_func(&self, fe: &FuncEntry) -> R<Func> {
        let m = &self.modules[fe.module];
        let text = &m.text[fe.start..fe.end];
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        let mut p = P::new(head, m);
        p.l.next(); // define
        p.skip_attrs_until_type();
        let ret = p.ty()?;
        p.l.next(); // name
        let mut params = vec![];
        p.l.eat(b'(');
        if !p.l.eat(b')') {
            loop {
                if p.l.eatw("...") { p.l.eat(b')'); break; }
                let t = p.ty()?;
                let sret = p.skip_param_attrs();
                let r = match p.l.peek() {
                    Tok::Reg(n) => { p.l.next(); let n = n.into_owned(); p.reg(&n) }
                    _ => { let n = format!("{}", params.len()); p.reg(&n) }
                };
                params.push((t, r, sret));
                if p.l.eat(b',') { continue; }
                if p.l.eat(b')') { break; }
                return Err("params".into());
            }
        }
        let subprogram = p.rest_dbg();
        // labels first
        let body: Vec<&str> = lines.collect();
        let mut labels: Map<String, usize> = Map::default();
        let mut nb = 0;
        for l in &body {
            if l.is_empty() || l.starts_with(' ') || l.starts_with(';') || l.starts_with('}') { continue; }
            if let Some(i) = l.find(':') {
                let n = l[..i].trim_matches('"');
                labels.insert(n.to_string(), nb);
                nb += 1;
            }
        }
        let regs = std::mem::take(&mut p.regs);
        let mut st = P { l: Lex::new(""), m, regs, labels };
        let mut blocks: Vec<Block> = vec![];
        let mut i = 0;
        while i < body.len() {
            let l = body[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('}') { continue; }
            if !l.starts_with(' ') {
                let n = l[..l.find(':').ok_or("label")?].trim_matches('"');
                blocks.push(Block { name: n.to_string(), phis: vec![], insts: vec![], term: Term::Unreachable, tdbg: 0 });
                continue;
            }
            if t.starts_with("#dbg_") { continue; }
            if blocks.is_empty() {
                // unnamed entry block
                blocks.push(Block { name: "entry".into(), phis: vec![], insts: vec![], term: Term::Unreachable, tdbg: 0 });
                for v in st.labels.values_mut() { *v += 1; }
            }
            let mut joined;
            let mut line: &str = t;
            if t.starts_with("switch") {
                joined = t.to_string();
                while !joined.contains(']') {
                    joined.push(' ');
                    joined.push_str(body[i].trim());
                    i += 1;
                }
                line = &joined;
            }
            // SAFETY of lifetimes: parse each line with its own lexer, sharing register names.
            let mut q = P { l: Lex::new(line), m, regs: std::mem::take(&mut st.regs), labels: std::mem::take(&mut st.labels) };
            let res = parse_line(&mut q, blocks.last_mut().unwrap());
            st.regs = std::mem::take(&mut q.regs);
            st.labels = std::mem::take(&mut q.labels);
            res.map_err(|e| format!("{e} in `{line}`"))?;
        }
        let nregs = st.regs.len();
        // resolve direct callees
        for b in &mut blocks {
            for ins in &mut b.insts {
                if let Op::Call { callee: Callee::Sym(n, id), .. } = &mut ins.op {
                    if let Some(f) = self.resolve_fn(fe.module, n) { *id = f + 1; }
                }
            }
        }
        let ipdom = post_dominators(&blocks);
        let heads = loop_heads(&blocks);
        Ok(Func { params, ret, blocks, nregs, ipdom, heads, subprogram })
    }

    // ------------------------------------------------------------ debug info
    fn meta_line(&self, module: usize, id: u32) -> Option<&str> {
        let m = &self.modules[module];
        let o = *m.meta.get(id as usize)?;
        if o == u32::MAX { return None; }
        let o = o as usize;
        let e = memchr(m.text.as_bytes(), o);
        Some(&m.text[o..e])
    }
    fn meta_field<'b>(l: &'b str, f: &str) -> Option<&'b str> {
        let mut from = 0;
        loop {
            let i = l[from..].find(f)? + from;
            let prev = l.as_bytes()[i - 1];
            if (prev == b'(' || prev == b' ') && l[i + f.len()..].starts_with(": ") {
                let s = &l[i + f.len() + 2..];
                let s = if let Some(r) = s.strip_prefix('"') { &r[..r.find('"')?] } else { &s[..s.find(|c| c == ',' || c == ')')?] };
                return Some(s);
            }
            from = i + f.len();
        }
    }
    /// Source positions of a debug location, innermost first: (file, line, function).
    pub fn locs(&self, module: usize, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = dbg;
        let mut n = 0;
        while cur != 0 && n < 32 {
            n += 1;
            let Some(l) = self.meta_line(module, cur) else { break };
            if !l.contains("!DILocation") { break; }
            let line: u32 = Self::meta_field(l, "line").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut sc: u32 = Self::meta_field(l, "scope").and_then(|s| s.trim_start_matches('!').parse().ok()).unwrap_or(0);
            let (mut file, mut func) = (String::new(), String::new());
            for _ in 0..32 {
                let Some(s) = self.meta_line(module, sc) else { break };
                if file.is_empty() {
                    if let Some(f) = Self::meta_field(s, "file").and_then(|s| s.trim_start_matches('!').parse::<u32>().ok()) {
                        if let Some(fl) = self.meta_line(module, f) {
                            file = Self::meta_field(fl, "filename").unwrap_or("").to_string();
                            let dir = Self::meta_field(fl, "directory").unwrap_or("");
                            if !file.starts_with('/') && !dir.is_empty() { file = format!("{dir}/{file}"); }
                        }
                    }
                }
                if s.contains("!DISubprogram") {
                    func = Self::meta_field(s, "name").unwrap_or("").to_string();
                    break;
                }
                sc = Self::meta_field(s, "scope").and_then(|s| s.trim_start_matches('!').parse().ok()).unwrap_or(0);
            }
            out.push((file, line, func));
            cur = Self::meta_field(l, "inlinedAt").and_then(|s| s.trim_start_matches('!').parse().ok()).unwrap_or(0);
        }
        out
    }
}

fn parse_line(q: &mut P<'_>, blk: &mut Block) -> R<()> {
    let save = q.l.i;
    let mut dst = None;
    if let Tok::Reg(n) = q.l.next() {
        if q.l.eat(b'=') { let n = n.into_owned(); dst = Some(q.reg(&n)); }
    } else { q.l.i = save; }
    let opn = match q.l.next() { Tok::Word(w) => w.to_string(), t => return Err(format!("instruction {t:?}")) };
    match opn.as_str() {
        "ret" => {
            let ty = q.ty()?;
            blk.term = Term::Ret(if ty == Ty::Void { None } else { let v = q.opd(&ty)?; Some((ty, v)) });
            blk.tdbg = q.rest_dbg();
        }
        "br" => {
            if let Tok::Word("label") = q.l.peek() {
                blk.term = Term::Br(q.label()?);
            } else {
                let t = q.ty()?;
                let c = q.opd(&t)?;
                q.l.eat(b',');
                let a = q.label()?;
                q.l.eat(b',');
                let b = q.label()?;
                blk.term = Term::CondBr(c, a, b);
            }
            blk.tdbg = q.rest_dbg();
        }
        "switch" => {
            let ty = q.ty()?;
            let v = q.opd(&ty)?;
            q.l.eat(b',');
            let default = q.label()?;
            q.l.eat(b'[');
            let mut cases = vec![];
            while !q.l.eat(b']') {
                let t = q.ty()?;
                let c = q.konst(&t)?;
                q.l.eat(b',');
                let l = q.label()?;
                match c { Const::Int(_, k) => cases.push((k, l)), _ => return Err("switch case".into()) }
            }
            blk.term = Term::Switch { ty, v, default, cases };
            blk.tdbg = q.rest_dbg();
        }
        "unreachable" => { blk.term = Term::Unreachable; blk.tdbg = q.rest_dbg(); }
        "phi" => {
            let ty = q.ty()?;
            let mut inc = vec![];
            loop {
                if !q.l.eat(b'[') { break; }
                let v = q.opd(&ty)?;
                q.l.eat(b',');
                match q.l.next() {
                    Tok::Reg(n) => inc.push((v, *q.labels.get(&*n).ok_or("phi label")?)),
                    t => return Err(format!("phi {t:?}")),
                }
                q.l.eat(b']');
                if !q.l.eat(b',') { break; }
                if let Tok::Meta(_) = q.l.peek() { break; }
            }
            blk.phis.push(Phi { dst: dst.ok_or("phi dst")?, ty, inc });
        }
        "invoke" | "resume" | "landingpad" | "cleanupret" => {
            blk.insts.push(Inst { dst, op: Op::Unsupported(opn), dbg: 0 });
        }
        o => {
            let mut op = q.inst(o)?;
            if let Op::Load { noundef, .. } = &mut op { *noundef = q.l.s.contains("!noundef"); }
            let dbg = q.rest_dbg();
            blk.insts.push(Inst { dst, op, dbg });
        }
    }
    Ok(())
}

fn memchr(b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != b'\n' { i += 1; }
    i
}

pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Br(a) => vec![*a],
        Term::CondBr(_, a, b) => vec![*a, *b],
        Term::Switch { default, cases, .. } => {
            let mut v = vec![*default];
            v.extend(cases.iter().map(|c| c.1));
            v
        }
        _ => vec![],
    }
}

/// Immediate post-dominators on the part of the graph from which a return is reachable.
fn post_dominators(blocks: &[Block]) -> Vec<usize> {
    let n = blocks.len();
    let s: Vec<Vec<usize>> = blocks.iter().map(|b| succs(&b.term)).collect();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, v) in s.iter().enumerate() { for &t in v { pred[t].push(i); } }
    // reverse graph from virtual exit n
    let rets: Vec<usize> = (0..n).filter(|&i| matches!(blocks[i].term, Term::Ret(_))).collect();
    // reverse post-order on reverse graph
    let mut seen = vec![false; n + 1];
    let mut order = vec![]; // post order
    let mut stack: Vec<(usize, usize)> = vec![(n, 0)];
    seen[n] = true;
    while let Some((v, k)) = stack.pop() {
        let ch: &Vec<usize> = if v == n { &rets } else { &pred[v] };
        if k < ch.len() {
            stack.push((v, k + 1));
            let c = ch[k];
            if !seen[c] { seen[c] = true; stack.push((c, 0)); }
        } else { order.push(v); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &v) in order.iter().enumerate() { num[v] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &v in order.iter().rev() {
            if v == n { continue; }
            let mut new = usize::MAX;
            let is_ret = matches!(blocks[v].term, Term::Ret(_));
            let ss: Vec<usize> = if is_ret { vec![n] } else { s[v].iter().copied().filter(|&x| seen[x]).collect() };
            for p in ss {
                if idom[p] == usize::MAX { continue; }
                if new == usize::MAX { new = p; } else {
                    let (mut a, mut b) = (p, new);
                    while a != b {
                        while num[a] < num[b] { a = idom[a]; }
                        while num[b] < num[a] { b = idom[b]; }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[v] != new { idom[v] = new; changed = true; }
        }
    }
    (0..n).map(|i| if !seen[i] || idom[i] == usize::MAX { NONE } else if idom[i] == n { EXIT } else { idom[i] }).collect()
}
