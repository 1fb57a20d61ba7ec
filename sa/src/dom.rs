//! The value domain: words of canonical boolean functions (hash-consed ROBDD with complement
//! edges) over input bits and numbered opaque terms. Equal values have equal numbers.
use crate::fx::Map;
use std::rc::Rc;

pub type Bit = u32;
pub const F: Bit = 0;
pub const T: Bit = 1;
/// Undefined (uninitialised) bit.
pub const U: Bit = 2;

#[derive(Clone, Copy)]
struct Node { var: u32, lo: Bit, hi: Bit, taint: u32, sig: u64 }

/// Taint classes of variables.
pub const SECRET: u32 = 1; // message, key and compared bytes
pub const PUBLIC: u32 = 2; // lengths, block counts
pub const CPU: u32 = 4; // CPU feature bits
pub const OPAQUE: u32 = 8; // result of a term the domain does not expand
pub const ENV: u32 = 16; // unknown environment (external call results, mutable globals)

#[derive(Clone, Debug)]
pub enum VarKind {
    Input(String, u32),     // name, bit index
    Sum(u32, u32),          // sum id, bit
    Term(u32, u32),         // opaque term id, bit
    App(u32, u32, u32),     // application of a summarised function: id, result word, bit
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Val0 { K(u32, u64), W(u32) }

#[derive(Clone, Debug)]
pub enum Val {
    /// Constant of width <= 64.
    I(u32, u64),
    /// Interned word.
    W(u32),
    Agg(Rc<Vec<Val>>),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::I(a, b), Val::I(c, d)) => a == c && b == d,
            (Val::W(a), Val::W(b)) => a == b,
            (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
}

#[inline]
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline]
fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SumForm { w: u32, k: u128, terms: Vec<(Bit, u128)> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key { Bin(u8, Val0, Val0), Cmp(u8, Val0, Val0) }

/// Panic payload: the domain grew beyond its limit.
pub struct Limit;

pub struct Dom {
    nodes: Vec<Node>,
    uniq: Map<(u32, Bit, Bit), u32>,
    ite_cache: Map<(Bit, Bit, Bit), Bit>,
    pub vars: Vec<(VarKind, u32)>,
    pub words: Vec<Rc<[Bit]>>,
    winfo: Vec<WInfo>,
    wmap: Map<Rc<[Bit]>, u32>,
    sums: Vec<SumForm>,
    sum_vec: Vec<Rc<[Bit]>>,
    sum_exact: Vec<bool>,
    /// Only effects matter: long sums of secrets are not related to each other.
    pub coarse: bool,
    sum_bit0: Map<Bit, Vec<u32>>,
    cores: Map<SumForm, Rc<[Bit]>>,
    var_sig: Vec<u64>,
    by_sig: Map<(u32, u64), Vec<Rc<SumForm>>>,
    pub stat_merged: usize,
    pub stat_unproven: usize,
    sum_map: Map<SumForm, u32>, // -> word
    prov: Map<u32, Rc<SumForm>>,
    terms: Map<Key, u32>,
    term_names: Vec<String>,
    term_def: Vec<(u8, Val0, Val0)>,
    ops: Map<(u8, Val0, Val0), Val0>,
    /// Compression functions are kept as numbered applications (see `app`).
    pub apps_on: bool,
    /// the definition's four finalisation rounds of SipHash as two applications (code may share the function)
    pub sip_d_apps: bool,
    apps: Vec<(u8, Vec<Val0>)>,
    app_map: Map<(u8, Vec<Val0>), Rc<Vec<Val>>>,
    limit: usize,
    pub hard_limit: usize,
    pub deadline: Option<std::time::Instant>,
    over: bool,
    pub stat_sums: usize,
    pub stat_opaque: usize,
}

/// One point of the input space.
#[derive(Default, Clone)]
pub struct Eval { pub seed: u64, pub point: Option<u32>, pub vars: Map<u32, bool>, sums: Map<u32, u128>, terms: Map<u32, u128>, apps: Map<u32, Rc<Vec<u64>>>, pub unknown: bool }

#[derive(Clone, Copy)]
struct WInfo { undef: bool, taint: u32 }

pub enum Bop { Add, Sub, Mul, And, Or, Xor }

impl Default for Dom { fn default() -> Self { Self::new() } }

impl Dom {
    pub fn new() -> Dom {
        Dom {
            nodes: vec![Node { var: u32::MAX, lo: F, hi: F, taint: 0, sig: 0 }, Node { var: u32::MAX - 1, lo: F, hi: F, taint: 0, sig: 0 }],
            uniq: Map::default(), ite_cache: Map::default(), vars: vec![],
            words: vec![], winfo: vec![], wmap: Map::default(), sums: vec![], sum_vec: vec![], sum_exact: vec![], coarse: false, sum_bit0: Map::default(), cores: Map::default(), var_sig: vec![], by_sig: Map::default(), stat_merged: 0, stat_unproven: 0, sum_map: Map::default(),
            prov: Map::default(), terms: Map::default(), term_names: vec![], term_def: vec![], ops: Map::default(), apps_on: false, sip_d_apps: false, apps: vec![], app_map: Map::default(), limit: usize::MAX, hard_limit: 20_000_000, deadline: None, over: false,
            stat_sums: 0, stat_opaque: 0,
        }
    }
    pub fn node_count(&self) -> usize { self.nodes.len() }

    // -------------------------------------------------------- boolean functions
    /// Values of the bit at the 64 sample points.
    #[inline]
    pub fn sig(&self, b: Bit) -> u64 { self.nodes[(b >> 1) as usize].sig ^ (0u64.wrapping_sub((b & 1) as u64)) }
    fn new_var(&mut self, kind: VarKind, taint: u32) -> u32 {
        let mut z = (self.vars.len() as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
        let mut rnd = || { z = z.wrapping_add(0x9e3779b97f4a7c15); let mut x = z; x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) };
        // point 0: all zero, point 1: all one, a few sparse and dense ones, the rest uniform
        let (a, b, c, e) = (rnd(), rnd(), rnd(), rnd());
        let sparse = a & b & c & 0xf0;
        let dense = (a | b | c) & 0xf00;
        let sig = (e & !0xfff) | sparse | dense | (rnd() & 0xc) | 2;
        self.new_var_sig(kind, taint, sig)
    }
    fn new_var_sig(&mut self, kind: VarKind, taint: u32, sig: u64) -> u32 {
        self.var_sig.push(sig);
        self.vars.push((kind, taint));
        (self.vars.len() - 1) as u32
    }
    fn mk(&mut self, var: u32, lo: Bit, hi: Bit) -> Bit {
        if lo == hi { return lo; }
        // canonical: lo edge regular
        if lo & 1 == 1 { return self.mk(var, lo ^ 1, hi ^ 1) ^ 1; }
        if let Some(n) = self.uniq.get(&(var, lo, hi)) { return *n << 1; }
        if self.nodes.len() >= self.limit { self.over = true; return F; }
        let id = self.nodes.len() as u32;
        if id as usize >= self.hard_limit || (id & 0xffff == 0 && self.deadline.map_or(false, |d| std::time::Instant::now() > d)) { std::panic::panic_any(Limit); }
        let taint = self.vars[var as usize].1 | self.nodes[(lo >> 1) as usize].taint | self.nodes[(hi >> 1) as usize].taint;
        let vs = self.var_sig[var as usize];
        let sig = (vs & self.sig(hi)) | (!vs & self.sig(lo));
        self.nodes.push(Node { var, lo, hi, taint, sig });
        self.uniq.insert((var, lo, hi), id);
        id << 1
    }
    pub fn var_bit(&mut self, v: u32) -> Bit { self.mk(v, F, T) }
    #[inline]
    pub fn is_undef(b: Bit) -> bool { b >> 1 == 1 }
    #[inline]
    pub fn not(&self, a: Bit) -> Bit { if Self::is_undef(a) { U } else { a ^ 1 } }
    #[inline]
    fn cof(&self, b: Bit, v: u32) -> (Bit, Bit) {
        let n = self.nodes[(b >> 1) as usize];
        if n.var == v { (n.lo ^ (b & 1), n.hi ^ (b & 1)) } else { (b, b) }
    }
    #[inline]
    fn top(&self, b: Bit) -> u32 { self.nodes[(b >> 1) as usize].var }
    pub fn ite(&mut self, f: Bit, g: Bit, h: Bit) -> Bit {
        if g == h { return g; }
        if f == T { return g; }
        if f == F { return h; }
        // an undefined alternative may be refined to the other one
        if Self::is_undef(g) { return h; }
        if Self::is_undef(h) { return g; }
        if Self::is_undef(f) { return U; }
        self.ite_rec(f, g, h)
    }
    fn ite_rec(&mut self, mut f: Bit, mut g: Bit, mut h: Bit) -> Bit {
        if f == T { return g; }
        if f == F { return h; }
        if g == h { return g; }
        if self.over { return F; }
        if g == f { g = T } else if g == f ^ 1 { g = F }
        if h == f { h = F } else if h == f ^ 1 { h = T }
        if g == T && h == F { return f; }
        if g == F && h == T { return f ^ 1; }
        if g == h { return g; }
        // normalise commutative cases
        if g == T && h < f { std::mem::swap(&mut f, &mut h); } // or
        else if h == F && g < f { std::mem::swap(&mut f, &mut g); } // and
        else if g == h ^ 1 && (g >> 1) < (f >> 1) && g > 1 {
            // xnor/xor: ite(f,g,!g) = ite(g,f,!f)
            let nf = f;
            f = g; g = nf; h = nf ^ 1;
        }
        if f & 1 == 1 { f ^= 1; std::mem::swap(&mut g, &mut h); }
        let neg = g & 1;
        if neg == 1 { g ^= 1; h ^= 1; }
        if let Some(r) = self.ite_cache.get(&(f, g, h)) { return *r ^ neg; }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.ite_rec(f0, g0, h0);
        let hi = self.ite_rec(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        if !self.over { if self.ite_cache.len() > 24_000_000 { self.ite_cache.clear(); } self.ite_cache.insert((f, g, h), r); }
        r ^ neg
    }
    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == F || b == F { return F; }
        if a == T { return b; }
        if b == T { return a; }
        if Self::is_undef(a) || Self::is_undef(b) { return U; }
        self.ite_rec(a, b, F)
    }
    pub fn or(&mut self, a: Bit, b: Bit) -> Bit {
        if a == T || b == T { return T; }
        if a == F { return b; }
        if b == F { return a; }
        if Self::is_undef(a) || Self::is_undef(b) { return U; }
        self.ite_rec(a, T, b)
    }
    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        if Self::is_undef(a) || Self::is_undef(b) { return U; }
        if a == F { return b; }
        if b == F { return a; }
        if a == T { return b ^ 1; }
        if b == T { return a ^ 1; }
        if a == b { return F; }
        if a == b ^ 1 { return T; }
        self.ite_rec(a, b ^ 1, b)
    }
    pub fn taint(&self, b: Bit) -> u32 { self.nodes[(b >> 1) as usize].taint }
    pub fn support(&self, bits: &[Bit], max: usize) -> Option<Vec<u32>> { self.support_in(bits, max, 4000) }
    fn support_in(&self, bits: &[Bit], max: usize, limit: usize) -> Option<Vec<u32>> {
        let mut seen = crate::fx::Set::default();
        let mut vs = crate::fx::Set::default();
        let mut st: Vec<u32> = bits.iter().map(|b| b >> 1).collect();
        let mut steps = 0;
        while let Some(n) = st.pop() {
            if n < 2 || !seen.insert(n) { continue; }
            steps += 1;
            if steps > limit { return None; }
            let nd = self.nodes[n as usize];
            vs.insert(nd.var);
            if vs.len() > max { return None; }
            st.push(nd.lo >> 1);
            st.push(nd.hi >> 1);
        }
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort();
        Some(v)
    }
    /// Runs `f` with a bound on the number of new nodes; None if exceeded.
    fn budget<R>(&mut self, n: usize, f: impl FnOnce(&mut Dom) -> R) -> Option<R> {
        let (ol, oo) = (self.limit, self.over);
        self.limit = self.limit.min(self.nodes.len() + n);
        self.over = false;
        let r = f(self);
        let failed = self.over;
        self.limit = ol;
        self.over = oo;
        if failed { None } else { Some(r) }
    }
    /// One satisfying assignment as readable text.
    pub fn witness(&self, mut b: Bit) -> String {
        let mut out: Vec<(String, u32, bool)> = vec![];
        while b > 1 && !Self::is_undef(b) {
            let n = self.nodes[(b >> 1) as usize];
            let (lo, hi) = (n.lo ^ (b & 1), n.hi ^ (b & 1));
            let take_hi = lo == F;
            let (name, i) = self.var_name(n.var);
            out.push((name, i, take_hi));
            b = if take_hi { hi } else { lo };
        }
        let mut s = String::new();
        for (n, i, v) in out.iter().take(24) { s.push_str(&format!("{}{}.{} ", if *v { "" } else { "!" }, n, i)); }
        if out.len() > 24 { s.push_str("..."); }
        s
    }
    fn var_name(&self, v: u32) -> (String, u32) {
        match &self.vars[v as usize].0 {
            VarKind::Input(n, i) => (n.clone(), *i),
            VarKind::Sum(s, i) => (format!("sum{s}"), *i),
            VarKind::Term(t, i) => (self.term_names[*t as usize].clone(), *i),
            VarKind::App(a, x, i) => (format!("block#{a}[{x}]"), *i),
        }
    }
    /// Name of the input if the bit is one input bit.
    pub fn bit_input(&self, b: Bit) -> Option<&str> {
        if b <= 1 || Self::is_undef(b) { return None; }
        let n = self.nodes[(b >> 1) as usize];
        if n.lo > 1 || n.hi > 1 { return None; }
        match &self.vars[n.var as usize].0 { VarKind::Input(s, _) => Some(s), _ => None }
    }
    /// True if the function depends on opaque terms other than modular sums (feasibility unknown).
    pub fn has_opaque(&self, b: Bit) -> bool { self.taint(b) & OPAQUE != 0 }

    // -------------------------------------------------------- words
    pub fn word(&mut self, bits: &[Bit]) -> Val {
        let w = bits.len() as u32;
        if w <= 64 && bits.iter().all(|b| *b <= 1) {
            let mut v = 0u64;
            for (i, b) in bits.iter().enumerate() { v |= (*b as u64) << i; }
            return Val::I(w, v);
        }
        Val::W(self.intern(bits))
    }
    fn intern(&mut self, bits: &[Bit]) -> u32 {
        if let Some(i) = self.wmap.get(bits) { return *i; }
        let r: Rc<[Bit]> = bits.into();
        let id = self.words.len() as u32;
        let mut info = WInfo { undef: false, taint: 0 };
        for b in bits {
            if Self::is_undef(*b) { info.undef = true; }
            info.taint |= self.taint(*b);
        }
        self.words.push(r.clone());
        self.winfo.push(info);
        self.wmap.insert(r, id);
        id
    }
    pub fn width(&self, v: &Val) -> u32 {
        match v {
            Val::I(w, _) => *w,
            Val::W(i) => self.words[*i as usize].len() as u32,
            Val::Agg(_) => panic!("width of aggregate"),
        }
    }
    pub fn bits(&self, v: &Val) -> Rc<[Bit]> {
        match v {
            Val::I(w, k) => (0..*w).map(|i| ((k >> i) & 1) as Bit).collect::<Vec<_>>().into(),
            Val::W(i) => self.words[*i as usize].clone(),
            Val::Agg(_) => panic!("bits of aggregate"),
        }
    }
    pub fn bit(&self, v: &Val, i: u32) -> Bit {
        match v {
            Val::I(_, k) => ((k >> i) & 1) as Bit,
            Val::W(w) => self.words[*w as usize][i as usize],
            Val::Agg(_) => panic!("bit of aggregate"),
        }
    }
    pub fn undef(&mut self, w: u32) -> Val { Val::W(self.intern(&vec![U; w as usize])) }
    pub fn has_undef(&self, v: &Val) -> bool {
        match v { Val::I(..) => false, Val::W(w) => self.winfo[*w as usize].undef, Val::Agg(a) => a.iter().any(|x| self.has_undef(x)) }
    }
    pub fn vtaint(&self, v: &Val) -> u32 {
        match v { Val::I(..) => 0, Val::W(w) => self.winfo[*w as usize].taint, Val::Agg(a) => a.iter().fold(0, |t, x| t | self.vtaint(x)) }
    }
    pub fn k(&self, w: u32, v: u128) -> Val0 { debug_assert!(w <= 64); Val0::K(w, v as u64) }
    pub fn konst(&mut self, w: u32, v: u128) -> Val {
        if w <= 64 { Val::I(w, v as u64 & mask(w)) } else {
            let bits: Vec<Bit> = (0..w).map(|i| if i < 128 { ((v >> i) & 1) as Bit } else { 0 }).collect();
            Val::W(self.intern(&bits))
        }
    }
    pub fn as_const(&self, v: &Val) -> Option<u128> {
        match v {
            Val::I(_, k) => Some(*k as u128),
            Val::W(w) => {
                let b = &self.words[*w as usize];
                if b.len() > 128 && b[128..].iter().any(|x| *x != F) { return None; }
                let mut r = 0u128;
                for (i, x) in b.iter().take(128).enumerate() {
                    if *x > 1 { return None; }
                    r |= (*x as u128) << i;
                }
                Some(r)
            }
            _ => None,
        }
    }
    /// Fresh unknown word.
    pub fn fresh(&mut self, name: &str, w: u32, taint: u32) -> Val {
        let mut bits = vec![];
        for i in 0..w {
            let v = self.new_var(VarKind::Input(name.to_string(), i), taint);
            bits.push(self.var_bit(v));
        }
        Val::W(self.intern(&bits))
    }
    /// Two inputs whose bits are neighbours in the variable order.
    pub fn fresh_pair(&mut self, a: &str, b: &str, w: u32, taint: u32) -> (Val, Val) {
        let (mut x, mut y) = (vec![F; w as usize], vec![F; w as usize]);
        for i in (0..w).rev() {
            x[i as usize] = self.fresh_bit(a, i, taint);
            y[i as usize] = self.fresh_bit(b, i, taint);
        }
        (Val::W(self.intern(&x)), Val::W(self.intern(&y)))
    }
    pub fn top_var(&self, b: Bit) -> u32 { self.top(b) }
    pub fn fresh_bit(&mut self, name: &str, i: u32, taint: u32) -> Bit {
        let v = self.new_var(VarKind::Input(name.to_string(), i), taint);
        self.var_bit(v)
    }
    fn v0(&self, v: &Val) -> Val0 { match v { Val::I(w, k) => Val0::K(*w, *k), Val::W(i) => Val0::W(*i), _ => panic!("scalar expected") } }
    fn un0(v: Val0) -> Val { match v { Val0::K(w, k) => Val::I(w, k), Val0::W(i) => Val::W(i) } }

    // -------------------------------------------------------- sums
    /// Canonical modular sum k + Σ coef·value at width w, as a linear form over bits.
    pub fn sum(&mut self, w: u32, vals: &[(Val, u128)], k: u128) -> Val {
        if w > 128 { return self.undef(w); }
        let m = mask128(w);
        let mut k = k & m;
        let mut t: Vec<(Bit, u128)> = Vec::with_capacity(vals.len() * w as usize);
        for (v, c) in vals {
            let c = *c & m;
            if c == 0 { continue; }
            match v {
                Val::I(_, x) => k = k.wrapping_add(c.wrapping_mul(*x as u128)) & m,
                Val::W(id) => {
                    if self.winfo[*id as usize].undef { return self.undef(w); }
                    if let Some(f) = self.prov.get(id) {
                        if f.w == w && f.terms.len() <= 6 * w as usize {
                            k = k.wrapping_add(c.wrapping_mul(f.k)) & m;
                            for (l, d) in &f.terms { t.push((*l, c.wrapping_mul(*d) & m)); }
                            continue;
                        }
                    }
                    for (i, b) in self.words[*id as usize].iter().enumerate() {
                        let ci = c.wrapping_shl(i as u32) & m;
                        if i as u32 >= w || ci == 0 || *b == F { continue; }
                        if *b & 1 == 1 {
                            k = k.wrapping_add(ci) & m;
                            if *b != T { t.push((*b ^ 1, ci.wrapping_neg() & m)); }
                        } else { t.push((*b, ci)); }
                    }
                }
                _ => panic!("sum of aggregate"),
            }
        }
        Self::tidy(&mut t, m);
        // effects only: a long sum of message data is just some value
        let rough = self.coarse && t.len() > 24 && t.iter().any(|e| self.taint(e.0) & SECRET != 0);
        if !rough { self.flatten(w, &mut k, &mut t); }
        if t.is_empty() { return self.konst(w, k); }
        let form = SumForm { w, k, terms: t };
        if let Some(r) = self.sum_map.get(&form) { return Val::W(*r); }
        self.stat_sums += 1;
        if rough {
            let taint = form.terms.iter().fold(0, |t, e| t | self.taint(e.0));
            let sid = self.sums.len() as u32;
            self.sums.push(SumForm { w, k: 0, terms: vec![] });
            self.sum_exact.push(false);
            self.sum_vec.push(Vec::new().into());
            let bits: Vec<Bit> = (0..w).map(|i| { let v = self.new_var_sig(VarKind::Sum(sid, i), taint, 0x9e3779b97f4a7c15u64.rotate_left(i + sid)); self.var_bit(v) }).collect();
            let v = self.word(&bits);
            if let Val::W(id) = v { self.sum_map.insert(form, id); }
            return v;
        }
        // the same value reached through another form?
        let mut hsh = 0u64;
        for v in self.form_sig(&form) { hsh = (hsh.rotate_left(7) ^ (v as u64) ^ ((v >> 64) as u64)).wrapping_mul(0x9e3779b97f4a7c15); }
        if let Some(c) = self.by_sig.get(&(w, hsh)).cloned() {
            for g in c {
                if self.same_form(&form, &g) {
                    self.stat_merged += 1;
                    let id = self.sum_map[&*g];
                    self.sum_map.insert(form, id);
                    return Val::W(id);
                }
                self.stat_unproven += 1;
            }
        }
        let bits = self.sum_bits(&form);
        let v = self.word(&bits);
        if let Val::W(id) = v {
            let f = Rc::new(form.clone());
            self.prov.entry(id).or_insert(f);
            self.by_sig.entry((w, hsh)).or_default().push(Rc::new(form.clone()));
            self.sum_map.insert(form, id);
        }
        v
    }
    fn tidy(t: &mut Vec<(Bit, u128)>, m: u128) {
        t.sort_unstable_by_key(|e| e.0);
        let mut o = 0;
        for i in 0..t.len() {
            if o > 0 && t[o - 1].0 == t[i].0 { t[o - 1].1 = t[o - 1].1.wrapping_add(t[i].1) & m; } else { t[o] = t[i]; o += 1; }
            if t[o - 1].1 == 0 { o -= 1; }
        }
        t.truncate(o);
        t.retain(|e| e.1 != 0);
    }
    /// Replaces complete sets of sum bits by the sum's own linear form.
    fn flatten(&mut self, w: u32, k: &mut u128, t: &mut Vec<(Bit, u128)>) {
        let m = mask128(w);
        loop {
            let mut hit = None;
            'o: for (b, c) in t.iter() {
                let Some(ss) = self.sum_bit0.get(b) else { continue };
                let tz = c.trailing_zeros();
                for s in ss {
                    let sb = &self.sum_vec[*s as usize];
                    // a sum that cannot overflow is an integer identity at any width
                    let need = if self.sum_exact[*s as usize] { ((w - tz) as usize).min(sb.len()) } else { (w - tz) as usize };
                    if sb.len() < need || self.sums[*s as usize].terms.len() > 6 * w as usize { continue; }
                    let mut ok = true;
                    for i in 1..need {
                        let want = c.wrapping_shl(i as u32) & m;
                        match t.binary_search_by_key(&sb[i], |e| e.0) { Ok(j) if t[j].1 == want => {} _ => { ok = false; break; } }
                    }
                    if ok { hit = Some((*s, *c, need)); break 'o; }
                }
            }
            let Some((s, c, need)) = hit else { return };
            self.expand(s, c, need, w, k, t);
        }
    }
    fn sum_bits(&mut self, f: &SumForm) -> Vec<Bit> {
        let w = f.w;
        // low bits that receive at most one contribution
        let mut r: Vec<Bit> = vec![];
        let mut t = f.terms.clone();
        let mut k = f.k;
        let mut p = 0u32;
        while p < w {
            let mut one: Option<usize> = None;
            let mut many = false;
            for (i, e) in t.iter().enumerate() { if (e.1 >> p) & 1 == 1 { if one.is_some() { many = true; break; } one = Some(i); } }
            if many { break; }
            let kb = (k >> p) & 1 == 1;
            match one {
                None => r.push(kb as Bit),
                Some(i) => {
                    let b = t[i].0;
                    r.push(b ^ kb as Bit);
                    let mut c = t[i].1 & !(1u128 << p);
                    if kb && p + 1 < w { c = c.wrapping_add(1u128 << (p + 1)) & mask128(w); }
                    t[i].1 = c;
                    if c == 0 { t.remove(i); }
                }
            }
            if kb { k &= !(1u128 << p); }
            p += 1;
        }
        if p == w { return r; }
        for e in &mut t { e.1 >>= p; }
        k >>= p;
        let mut cw = w - p;
        // an upper bound on the total fixes the top bits to zero
        let mut tot = Some(k);
        for e in &t { tot = tot.and_then(|x| x.checked_add(e.1)); }
        if let Some(x) = tot { cw = cw.min(128 - x.leading_zeros()); }
        let core = SumForm { w: cw, k, terms: t };
        let before = self.stat_opaque;
        let b = self.core_bits(core, p);
        r.extend_from_slice(&b);
        r.resize(w as usize, F);
        if self.stat_opaque != before {
            for (i, b) in self.narrow_bits(f).into_iter().enumerate() { if let Some(b) = b { r[i] = b; } }
        }
        r
    }
    fn trunc_form(f: &SumForm, w: u32) -> SumForm {
        let m = mask128(w);
        SumForm { w, k: f.k & m, terms: f.terms.iter().map(|e| (e.0, e.1 & m)).filter(|e| e.1 != 0).collect() }
    }
    /// Values of a linear form at the sample points.
    fn form_sig(&self, f: &SumForm) -> Vec<u128> {
        let mut v = vec![f.k; 64];
        for (b, c) in &f.terms {
            let mut m = self.sig(*b);
            while m != 0 {
                let j = m.trailing_zeros() as usize;
                v[j] = v[j].wrapping_add(*c);
                m &= m - 1;
            }
        }
        let mk = mask128(f.w);
        for x in &mut v { *x &= mk; }
        v
    }
    /// Proves two linear forms equal by expanding sums in their difference.
    fn same_form(&mut self, a: &SumForm, b: &SumForm) -> bool {
        let m = mask128(a.w);
        let mut k = a.k.wrapping_sub(b.k) & m;
        let mut t = a.terms.clone();
        for (l, c) in &b.terms { t.push((*l, c.wrapping_neg() & m)); }
        Self::tidy(&mut t, m);
        let mut left = 60;
        while !t.is_empty() && left > 0 {
            left -= 1;
            if !self.flatten_newest(a.w, &mut k, &mut t) { break; }
        }
        if t.is_empty() { return k == 0; }
        // what is left depends on few variables: decided exactly
        let all: Vec<Bit> = t.iter().map(|e| e.0).collect();
        if self.support_in(&all, 16, 100_000).is_none() { return false; }
        let w = a.w;
        let r = self.budget(200_000, |d| {
            let mut acc: Vec<Bit> = (0..w).map(|i| ((k >> i) & 1) as Bit).collect();
            for (l, c) in &t {
                let mut o: Vec<Bit> = vec![F; w as usize];
                for s in 0..w as usize { if (c >> s) & 1 == 1 { o[s] = *l; } }
                acc = d.ripple(&acc, &o, F);
            }
            acc
        });
        r.map_or(false, |acc| acc.iter().all(|b| *b == F))
    }
    /// Expands the most recently created sum that occurs completely; false if there is none.
    fn flatten_newest(&mut self, w: u32, k: &mut u128, t: &mut Vec<(Bit, u128)>) -> bool {
        let m = mask128(w);
        let mut hit: Option<(u32, u128, usize)> = None;
        for (b, c) in t.iter() {
            let Some(ss) = self.sum_bit0.get(b) else { continue };
            for s in ss {
                if hit.map_or(false, |h| h.0 >= *s) { continue; }
                let sb = &self.sum_vec[*s as usize];
                let need = (w - c.trailing_zeros()) as usize;
                let need = if self.sum_exact[*s as usize] { need.min(sb.len()) } else { need };
                if sb.len() < need { continue; }
                let ok = (1..need).all(|i| {
                    let want = c.wrapping_shl(i as u32) & m;
                    matches!(t.binary_search_by_key(&sb[i], |e| e.0), Ok(j) if t[j].1 == want)
                });
                if ok { hit = Some((*s, *c, need)); }
            }
        }
        let Some((s, c, need)) = hit else { return false };
        self.expand(s, c, need, w, k, t);
        true
    }
    fn expand(&mut self, s: u32, c: u128, need: usize, w: u32, k: &mut u128, t: &mut Vec<(Bit, u128)>) {
        let m = mask128(w);
        let sb = self.sum_vec[s as usize].clone();
        for i in 0..need {
            if let Ok(j) = t.binary_search_by_key(&sb[i], |e| e.0) { t[j].1 = 0; }
        }
        t.retain(|e| e.1 != 0);
        let f = &self.sums[s as usize];
        *k = k.wrapping_add(c.wrapping_mul(f.k)) & m;
        for (l, d) in &f.terms { t.push((*l, c.wrapping_mul(*d) & m)); }
        Self::tidy(t, m);
    }
    fn core_bits(&mut self, f: SumForm, p: u32) -> Vec<Bit> {
        if let Some(b) = self.cores.get(&f) { return b.to_vec(); }
        let w = f.w;
        let vals = self.form_sig(&f);
        // few variables: exact
        let all: Vec<Bit> = f.terms.iter().map(|e| e.0).collect();
        let few = f.terms.len() <= 4;
        if few || self.support(&all, 14).is_some() {
            let r = self.budget(if few { 20_000 } else { 100_000 }, |d| {
                let mut acc: Vec<Bit> = (0..w).map(|i| ((f.k >> i) & 1) as Bit).collect();
                for (l, c) in &f.terms {
                    let mut o: Vec<Bit> = vec![F; w as usize];
                    for s in 0..w as usize { if (c >> s) & 1 == 1 { o[s] = *l; } }
                    acc = d.ripple(&acc, &o, F);
                }
                acc
            });
            if let Some(acc) = r { self.cores.insert(f, acc.clone().into()); return acc; }
        }
        self.stat_opaque += 1;
        let sid = self.sums.len() as u32;
        let taint = f.terms.iter().fold(0, |t, e| t | self.taint(e.0));
        let mut bits: Vec<Bit> = vec![];
        let mut subs = vec![];
        for tw in [32u32, 16, 8] {
            if tw <= p || tw - p >= w { continue; }
            let tf = Self::trunc_form(&f, tw - p);
            if tf.terms.is_empty() { continue; }
            match self.cores.get(&tf) {
                Some(b) => if bits.is_empty() { bits = b.to_vec(); },
                None => subs.push(tf),
            }
        }
        for i in bits.len() as u32..w {
            let mut sig = 0u64;
            for (j, v) in vals.iter().enumerate() { sig |= (((v >> i) & 1) as u64) << j; }
            let v = self.new_var_sig(VarKind::Sum(sid, i), taint, sig);
            let b = self.var_bit(v);
            bits.push(b);
        }
        for tf in subs { let n = tf.w as usize; self.cores.insert(tf, bits[..n].into()); }
        let mut tot = Some(f.k);
        for e in &f.terms { tot = tot.and_then(|x| x.checked_add(e.1)); }
        self.sum_exact.push(tot.map_or(false, |x| w >= 128 || x >> w == 0));
        self.sums.push(f.clone());
        self.sum_bit0.entry(bits[0]).or_default().push(sid);
        self.sum_vec.push(bits.clone().into());
        self.cores.insert(f, bits.clone().into());
        bits
    }
    /// A narrow value plus a constant: the carries are followed exactly, and the bits that stay small.
    fn narrow_bits(&mut self, f: &SumForm) -> Vec<Option<Bit>> {
        let (w, m) = (f.w, mask128(f.w));
        if f.terms.len() > 16 || w > 64 || self.coarse { return vec![]; }
        let mut x = vec![F; w as usize];
        let mut k = f.k;
        for (b, c) in &f.terms {
            let n = c.wrapping_neg() & m;
            let (b, c) = if c.count_ones() == 1 { (*b, *c) } else if n.count_ones() == 1 { k = k.wrapping_sub(n) & m; (*b ^ 1, n) } else { return vec![] };
            let i = c.trailing_zeros() as usize;
            if i >= w as usize || x[i] != F { return vec![]; }
            x[i] = b;
        }
        let mut c = F;
        let mut r = vec![None; w as usize];
        for i in 0..w as usize {
            let kb = ((k >> i) & 1) as Bit;
            r[i] = self.budget(3_000, |d| d.xor(x[i] ^ kb, c));
            let Some(n) = self.budget(30_000, |d| if kb == 1 { d.or(x[i], c) } else { d.and(x[i], c) }) else { return r };
            c = n;
        }
        r
    }
    fn ripple(&mut self, a: &[Bit], b: &[Bit], cin: Bit) -> Vec<Bit> {
        let mut c = cin;
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            c = self.ite(x, c, a[i]);
        }
        r
    }

    // -------------------------------------------------------- arithmetic
    pub fn add(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(w, x), Val::I(_, y)) => Val::I(*w, x.wrapping_add(*y) & mask(*w)),
            (_, Val::I(_, 0)) => a.clone(),
            (Val::I(_, 0), _) => b.clone(),
            _ => self.cached(0, a, b, |d| { let w = d.width(a); d.sum(w, &[(a.clone(), 1), (b.clone(), 1)], 0) }),
        }
    }
    pub fn sub(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(w, x), Val::I(_, y)) => Val::I(*w, x.wrapping_sub(*y) & mask(*w)),
            (_, Val::I(_, 0)) => a.clone(),
            _ => self.cached(1, a, b, |d| { let w = d.width(a); d.sum(w, &[(a.clone(), 1), (b.clone(), !0)], 0) }),
        }
    }
    pub fn mul(&mut self, a: &Val, b: &Val) -> Val {
        let w = self.width(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => self.konst(w, x.wrapping_mul(y) & mask128(w)),
            (_, Some(y)) => self.sum(w, &[(a.clone(), y)], 0),
            (Some(x), _) => self.sum(w, &[(b.clone(), x)], 0),
            _ => {
                // few unknown bits on one side: shift-and-add
                let (ab, bb) = (self.bits(a), self.bits(b));
                let na = ab.iter().filter(|x| **x > 1).count();
                let nb = bb.iter().filter(|x| **x > 1).count();
                if w <= 128 && na.min(nb) <= 8 {
                    let (s, o) = if na <= nb { (ab, bb) } else { (bb, ab) };
                    let mut parts = vec![];
                    for i in 0..w as usize {
                        if s[i] == F { continue; }
                        let mut v = vec![F; i];
                        for j in 0..w as usize - i { v.push(self.and(s[i], o[j])); }
                        let p = self.word(&v);
                        parts.push((p, 1));
                    }
                    return self.sum(w, &parts, 0);
                }
                self.term("mul", 20, a, b, w)
            }
        }
    }
    fn at0(&self, v: Val0, j: u32) -> u128 {
        match v {
            Val0::K(_, k) => k as u128,
            Val0::W(i) => { let mut r = 0u128; for (n, b) in self.words[i as usize].iter().enumerate().take(128) { r |= (((self.sig(*b) >> j) & 1) as u128) << n; } r }
        }
    }
    fn op_at(&self, c: u8, a: Val0, x: u128, y: u128) -> Option<u128> {
        let w = match a { Val0::K(w, _) => w, Val0::W(i) => self.words[i as usize].len() as u32 };
        let s = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
        Some(match c {
            20 => x.wrapping_mul(y) & mask128(w),
            21 => x.checked_div(y).unwrap_or(0),
            22 => x.checked_rem(y).unwrap_or(0),
            23 => s(x).checked_div(s(y)).unwrap_or(0) as u128 & mask128(w),
            24 => s(x).checked_rem(s(y)).unwrap_or(0) as u128 & mask128(w),
            30 => (x == y) as u128,
            31 => (x < y) as u128,
            _ => return None,
        })
    }
    fn term_at(&self, c: u8, a: Val0, b: Val0, j: u32) -> u128 { self.op_at(c, a, self.at0(a, j), self.at0(b, j)).unwrap_or(0) }
    fn term(&mut self, name: &str, code: u8, a: &Val, b: &Val, w: u32) -> Val {
        if self.has_undef(a) || self.has_undef(b) { return self.undef(w); }
        let (mut x, mut y) = (self.v0(a), self.v0(b));
        if code == 20 {
            let ord = |v: Val0| match v { Val0::K(w, k) => (0u32, w, k), Val0::W(i) => (1, i, 0) };
            if ord(y) < ord(x) { std::mem::swap(&mut x, &mut y); }
        }
        let key = Key::Bin(code, x, y);
        if let Some(i) = self.terms.get(&key) { return Val::W(*i); }
        let tid = self.term_names.len() as u32;
        self.term_names.push(format!("{name}#{tid}"));
        self.term_def.push((code, x, y));
        let taint = self.vtaint(a) | self.vtaint(b) | OPAQUE;
        let mut bits = vec![];
        let tv: Vec<u128> = (0..64).map(|j| self.term_at(code, x, y, j)).collect();
        for i in 0..w {
            let mut sig = 0u64;
            for (j, v) in tv.iter().enumerate() { sig |= (((v >> i) & 1) as u64) << j; }
            let v = self.new_var_sig(VarKind::Term(tid, i), taint, sig);
            bits.push(self.var_bit(v));
        }
        let id = self.intern(&bits);
        self.terms.insert(key, id);
        Val::W(id)
    }
    /// Application of function `code` (defined by `spec::concrete`) to the arguments: equal arguments give
    /// the same numbers. Its value at the sample points is the function's.
    pub fn app(&mut self, code: u8, args: &[Val], w: u32) -> Option<Rc<Vec<Val>>> {
        if args.iter().any(|a| self.has_undef(a)) { return None; }
        let key = (code, args.iter().map(|a| self.v0(a)).collect::<Vec<_>>());
        if let Some(v) = self.app_map.get(&key) { return Some(v.clone()); }
        if let Some(k) = args.iter().map(|a| self.as_const(a).map(|x| x as u64)).collect::<Option<Vec<u64>>>() {
            let o = Rc::new(crate::spec::concrete(code, &k).into_iter().map(|x| Val::I(w, x)).collect::<Vec<_>>());
            self.app_map.insert(key, o.clone());
            return Some(o);
        }
        let mut taint = OPAQUE;
        for a in args { taint |= self.vtaint(a); }
        let pts: Vec<Vec<u64>> = (0..64).map(|j| { let k: Vec<u64> = key.1.iter().map(|a| self.at0(*a, j) as u64).collect(); crate::spec::concrete(code, &k) }).collect();
        let id = self.apps.len() as u32;
        self.apps.push((code, key.1.clone()));
        let mut out = vec![];
        for x in 0..pts[0].len() {
            let mut bits = vec![];
            for i in 0..w {
                let mut sig = 0u64;
                for (j, v) in pts.iter().enumerate() { sig |= ((v[x] >> i) & 1) << j; }
                let v = self.new_var_sig(VarKind::App(id, x as u32, i), taint, sig);
                bits.push(self.var_bit(v));
            }
            out.push(Val::W(self.intern(&bits)));
        }
        let out = Rc::new(out);
        self.app_map.insert(key, out.clone());
        Some(out)
    }
    pub fn udivrem(&mut self, a: &Val, b: &Val, rem: bool) -> Option<Val> {
        let w = self.width(a);
        if let Some(y) = self.as_const(b) {
            if y == 0 { return None; }
            if let Some(x) = self.as_const(a) { return Some(self.konst(w, if rem { x % y } else { x / y })); }
            if y.is_power_of_two() {
                let s = y.trailing_zeros();
                return Some(if rem {
                    let bb = self.bits(a);
                    let v: Vec<Bit> = bb.iter().enumerate().map(|(i, x)| if (i as u32) < s { *x } else { F }).collect();
                    self.word(&v)
                } else { self.lshr_k(a, s) });
            }
            // restoring division when the operand has few variables
            let ab = self.bits(a);
            if self.support(&ab, 16).is_some() && w <= 64 {
                let r = self.budget(400_000, |d| {
                    let yb: Vec<Bit> = (0..w + 1).map(|i| if i < 128 { ((y >> i) & 1) as Bit } else { F }).collect();
                    let mut r = vec![F; w as usize + 1];
                    let mut q = vec![F; w as usize];
                    for i in (0..w as usize).rev() {
                        r.rotate_right(1);
                        r[0] = ab[i];
                        let ge = { let lt = d.ult_bits(&r, &yb); lt ^ 1 };
                        let ny: Vec<Bit> = yb.iter().map(|x| *x ^ 1).collect();
                        let s = d.ripple(&r, &ny, T);
                        for j in 0..r.len() { r[j] = d.ite(ge, s[j], r[j]); }
                        q[i] = ge;
                    }
                    (q, r)
                });
                if let Some((q, r)) = r {
                    return Some(if rem { self.word(&r[..w as usize]) } else { self.word(&q) });
                }
            }
        }
        Some(self.term(if rem { "urem" } else { "udiv" }, if rem { 22 } else { 21 }, a, b, w))
    }
    pub fn opaque2(&mut self, name: &str, code: u8, a: &Val, b: &Val, w: u32) -> Val { self.term(name, code, a, b, w) }
    fn cached(&mut self, op: u8, a: &Val, b: &Val, f: impl FnOnce(&mut Dom) -> Val) -> Val {
        let key = (op, self.v0(a), self.v0(b));
        if let Some(r) = self.ops.get(&key) { return Self::un0(*r); }
        let r = f(self);
        let r0 = self.v0(&r);
        self.ops.insert(key, r0);
        r
    }
    fn bitwise(&mut self, op: u8, a: &Val, b: &Val) -> Val {
        self.cached(op, a, b, |d| {
            let (x, y) = (d.bits(a), d.bits(b));
            let mut r = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                r.push(match op { 2 => d.and(x[i], y[i]), 3 => d.or(x[i], y[i]), _ => d.xor(x[i], y[i]) });
            }
            d.word(&r)
        })
    }
    pub fn vand(&mut self, a: &Val, b: &Val) -> Val { if let (Val::I(w, x), Val::I(_, y)) = (a, b) { return Val::I(*w, x & y); } self.bitwise(2, a, b) }
    pub fn vor(&mut self, a: &Val, b: &Val) -> Val { if let (Val::I(w, x), Val::I(_, y)) = (a, b) { return Val::I(*w, x | y); } self.bitwise(3, a, b) }
    pub fn vxor(&mut self, a: &Val, b: &Val) -> Val { if let (Val::I(w, x), Val::I(_, y)) = (a, b) { return Val::I(*w, x ^ y); } self.bitwise(4, a, b) }
    pub fn vnot(&mut self, a: &Val) -> Val {
        match a {
            Val::I(w, x) => Val::I(*w, !x & mask(*w)),
            _ => { let b = self.bits(a); let r: Vec<Bit> = b.iter().map(|x| self.not(*x)).collect(); self.word(&r) }
        }
    }
    pub fn shl_k(&mut self, a: &Val, s: u32) -> Val {
        let b = self.bits(a);
        let n = b.len();
        let mut r = vec![F; (s as usize).min(n)];
        if (s as usize) < n { r.extend_from_slice(&b[..n - s as usize]); }
        self.word(&r)
    }
    pub fn lshr_k(&mut self, a: &Val, s: u32) -> Val {
        let b = self.bits(a);
        let n = b.len();
        let mut r: Vec<Bit> = if (s as usize) < n { b[s as usize..].to_vec() } else { vec![] };
        r.resize(n, F);
        self.word(&r)
    }
    pub fn ashr_k(&mut self, a: &Val, s: u32) -> Val {
        let b = self.bits(a);
        let n = b.len();
        let sign = b[n - 1];
        let mut r: Vec<Bit> = if (s as usize) < n { b[s as usize..].to_vec() } else { vec![] };
        r.resize(n, sign);
        self.word(&r)
    }
    pub fn rotl_k(&mut self, a: &Val, s: u32) -> Val {
        let b = self.bits(a);
        let n = b.len();
        let mut r = b.to_vec();
        r.rotate_right(s as usize % n);
        self.word(&r)
    }
    pub fn rotr_k(&mut self, a: &Val, s: u32) -> Val { let n = self.width(a); self.rotl_k(a, (n - s % n) % n) }
    /// kind 0 shl, 1 lshr, 2 ashr
    pub fn shift(&mut self, a: &Val, s: &Val, kind: u8) -> Val {
        let w = self.width(a);
        if let Some(k) = self.as_const(s) {
            if k >= w as u128 { return self.undef(w); }
            if let Val::I(_, x) = a {
                return Val::I(w, match kind { 0 => (x << k) & mask(w), 1 => x >> k, _ => {
                    let sx = ((*x << (64 - w)) as i64) >> (64 - w);
                    (sx >> k) as u64 & mask(w)
                } });
            }
            return match kind { 0 => self.shl_k(a, k as u32), 1 => self.lshr_k(a, k as u32), _ => self.ashr_k(a, k as u32) };
        }
        let sb = self.bits(s);
        let mut cur = a.clone();
        for (i, b) in sb.iter().enumerate() {
            if *b == F { continue; }
            if i >= 31 || (1u32 << i) >= w {
                // amount would be out of range: poison there, so the other value may be assumed
                continue;
            }
            let n = 1u32 << i;
            let sh = match kind { 0 => self.shl_k(&cur, n), 1 => self.lshr_k(&cur, n), _ => self.ashr_k(&cur, n) };
            cur = self.select(*b, &sh, &cur);
        }
        cur
    }
    pub fn trunc(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::I(_, x) => Val::I(w, x & mask(w)),
            _ => { let b = self.bits(a); self.word(&b[..w as usize]) }
        }
    }
    pub fn zext(&mut self, a: &Val, w: u32) -> Val {
        match a {
            Val::I(_, x) if w <= 64 => Val::I(w, *x),
            _ => { let b = self.bits(a); let mut r = b.to_vec(); r.resize(w as usize, F); self.word(&r) }
        }
    }
    pub fn sext(&mut self, a: &Val, w: u32) -> Val {
        let b = self.bits(a);
        let mut r = b.to_vec();
        let s = *r.last().unwrap();
        r.resize(w as usize, s);
        self.word(&r)
    }
    /// bits lo..lo+w of a
    pub fn extract(&mut self, a: &Val, lo: u32, w: u32) -> Val {
        match a {
            Val::I(_, x) => Val::I(w, (x >> lo) & mask(w)),
            _ => { let b = self.bits(a); self.word(&b[lo as usize..(lo + w) as usize]) }
        }
    }
    /// lowest part first
    pub fn concat(&mut self, parts: &[Val]) -> Val {
        if parts.len() == 1 { return parts[0].clone(); }
        let mut r = vec![];
        for p in parts { let b = self.bits(p); r.extend_from_slice(&b); }
        self.word(&r)
    }
    pub fn bswap(&mut self, a: &Val) -> Val {
        let b = self.bits(a);
        let mut r = vec![];
        for c in b.chunks(8).rev() { r.extend_from_slice(c); }
        self.word(&r)
    }
    pub fn select(&mut self, c: Bit, a: &Val, b: &Val) -> Val {
        if c == T { return a.clone(); }
        if c == F { return b.clone(); }
        if a == b { return a.clone(); }
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let v: Vec<Val> = (0..x.len()).map(|i| self.select(c, &x[i], &y[i])).collect();
                Val::Agg(Rc::new(v))
            }
            _ => {
                let (x, y) = (self.bits(a), self.bits(b));
                let mut r = Vec::with_capacity(x.len());
                for i in 0..x.len() { r.push(self.ite(c, x[i], y[i])); }
                self.word(&r)
            }
        }
    }
    fn ult_bits(&mut self, a: &[Bit], b: &[Bit]) -> Bit {
        let mut lt = F;
        for i in 0..a.len() {
            let d = self.xor(a[i], b[i]);
            lt = self.ite(d, b[i], lt);
        }
        lt
    }
    fn cmp_atom(&mut self, name: &str, code: u8, a: &Val, b: &Val) -> Bit {
        let key = Key::Cmp(code, self.v0(a), self.v0(b));
        if let Some(i) = self.terms.get(&key) { return *i; }
        let tid = self.term_names.len() as u32;
        self.term_names.push(format!("{name}#{tid}"));
        let def = (code, self.v0(a), self.v0(b));
        self.term_def.push(def);
        let taint = self.vtaint(a) | self.vtaint(b) | OPAQUE;
        let mut sig = 0u64;
        for j in 0..64 { sig |= ((self.term_at(code, def.1, def.2, j) & 1) as u64) << j; }
        let v = self.new_var_sig(VarKind::Term(tid, 0), taint, sig);
        let b = self.var_bit(v);
        self.terms.insert(key, b);
        b
    }
    pub fn eq(&mut self, a: &Val, b: &Val) -> Bit {
        if let (Val::I(_, x), Val::I(_, y)) = (a, b) { return (x == y) as Bit; }
        if a == b && !self.has_undef(a) { return T; }
        if self.has_undef(a) || self.has_undef(b) { return U; }
        let (x, y) = (self.bits(a), self.bits(b));
        for i in 0..x.len() { if x[i] <= 1 && y[i] <= 1 && x[i] != y[i] || x[i] == y[i] ^ 1 { return F; } }
        let r = self.budget(100_000, |d| {
            let mut acc = T;
            for i in 0..x.len() {
                let e = d.xor(x[i], y[i]) ^ 1;
                acc = d.and(acc, e);
                if acc == F || d.over { break; }
            }
            acc
        });
        if let Some(b) = r { return b; }
        let ord = |v: Val0| match v { Val0::K(w, k) => (0u32, w, k), Val0::W(i) => (1, i, 0) };
        if ord(self.v0(b)) < ord(self.v0(a)) { return self.cmp_atom("eq", 30, b, a); }
        self.cmp_atom("eq", 30, a, b)
    }
    pub fn ult(&mut self, a: &Val, b: &Val) -> Bit {
        if let (Val::I(_, x), Val::I(_, y)) = (a, b) { return (x < y) as Bit; }
        if self.has_undef(a) || self.has_undef(b) { return U; }
        if a == b { return F; }
        if let Some(r) = self.shifted(a, b) { return r; }
        let (x, y) = (self.bits(a), self.bits(b));
        let r = self.budget(100_000, |d| d.ult_bits(&x, &y));
        if let Some(b) = r { return b; }
        self.cmp_atom("ult", 31, a, b)
    }
    /// a < b where both are the same non-wrapping sum plus different constants.
    fn shifted(&self, a: &Val, b: &Val) -> Option<Bit> {
        let w = self.width(a);
        if w > 64 { return None; }
        let m = mask128(w);
        let lin = |v: &Val| -> Option<(u128, Vec<(Bit, u128)>)> {
            let Val::W(id) = v else { return None };
            let (k, t) = match self.prov.get(id) {
                Some(f) if f.w == w => (f.k, f.terms.clone()),
                _ => {
                    let mut t: Vec<(Bit, u128)> = vec![];
                    let mut k = 0u128;
                    for (i, b) in self.words[*id as usize].iter().enumerate() {
                        match *b { F => {} T => k += 1 << i, x if x & 1 == 0 => t.push((x, 1 << i)), _ => return None }
                    }
                    Self::tidy(&mut t, m);
                    (k, t)
                }
            };
            let mut tot = k;
            for e in &t { tot = tot.checked_add(e.1)?; }
            if tot > m { return None; }
            Some((k, t))
        };
        let (ka, ta) = lin(a)?;
        let (kb, tb) = lin(b)?;
        if ta != tb { return None; }
        Some((ka < kb) as Bit)
    }
    pub fn slt(&mut self, a: &Val, b: &Val) -> Bit {
        let fa = self.flip_sign(a);
        let fb = self.flip_sign(b);
        self.ult(&fa, &fb)
    }
    fn flip_sign(&mut self, a: &Val) -> Val {
        let b = self.bits(a);
        let mut r = b.to_vec();
        let n = r.len() - 1;
        r[n] = self.not(r[n]);
        self.word(&r)
    }
    /// All constant values the word can take, with their conditions.
    pub fn enumerate(&mut self, v: &Val, pc: Bit, max: usize) -> Option<Vec<(Bit, u64)>> {
        if let Val::I(_, k) = v { return Some(vec![(T, *k)]); }
        let b = self.bits(v);
        let mut out = vec![];
        let mut work: Vec<(Bit, Vec<Bit>)> = vec![(T, b.to_vec())];
        while let Some((c, bits)) = work.pop() {
            match bits.iter().map(|x| self.top(*x)).min() {
                Some(top) if top < u32::MAX - 1 => {
                    let vb = self.var_bit(top);
                    for pol in [F, T] {
                        let cc = self.and(c, vb ^ (1 - pol));
                        if self.and(cc, pc) == F { continue; }
                        let nb: Vec<Bit> = bits.iter().map(|x| { let (l, h) = self.cof(*x, top); if pol == T { h } else { l } }).collect();
                        work.push((cc, nb));
                    }
                    if work.len() > max * 2 { return None; }
                }
                _ => {
                    if bits.iter().any(|x| *x > 1) { return None; }
                    let mut k = 0u64;
                    for (i, x) in bits.iter().enumerate() { k |= (*x as u64) << i; }
                    out.push((c, k));
                    if out.len() > max { return None; }
                }
            }
        }
        // merge equal values
        out.sort_by_key(|e| e.1);
        let mut r: Vec<(Bit, u64)> = vec![];
        for (c, k) in out {
            match r.last_mut() {
                Some(l) if l.1 == k => { let n = self.or(l.0, c); r.last_mut().unwrap().0 = n; }
                _ => r.push((c, k)),
            }
        }
        Some(r)
    }
    // -------------------------------------------------------- concretisation
    /// Value of a word at one point of the input space (deterministic in `seed` for unassigned inputs).
    pub fn eval_val(&self, v: &Val, e: &mut Eval) -> u128 {
        match v {
            Val::I(_, k) => *k as u128,
            Val::W(i) => {
                let b = self.words[*i as usize].clone();
                let mut r = 0u128;
                for (j, x) in b.iter().enumerate().take(128) { if self.eval_bit(*x, e) { r |= 1 << j; } }
                r
            }
            _ => 0,
        }
    }
    fn eval0(&self, v: Val0, e: &mut Eval) -> u128 { self.eval_val(&Self::un0(v), e) }
    pub fn eval_bit(&self, mut b: Bit, e: &mut Eval) -> bool {
        loop {
            if b == F { return false; }
            if b == T { return true; }
            if Self::is_undef(b) { return false; }
            let n = self.nodes[(b >> 1) as usize];
            let v = self.eval_var(n.var, e);
            b = (if v { n.hi } else { n.lo }) ^ (b & 1);
        }
    }
    pub fn eval_var(&self, v: u32, e: &mut Eval) -> bool {
        if let Some(x) = e.vars.get(&v) { return *x; }
        let r = match &self.vars[v as usize].0 {
            VarKind::Input(..) if e.point.is_some() => (self.var_sig[v as usize] >> e.point.unwrap()) & 1 == 1,
            VarKind::Input(..) => {
                let mut z = (v as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ e.seed.wrapping_mul(0xd1342543de82ef95);
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                (z ^ (z >> 31)) & 1 == 1
            }
            VarKind::Sum(s, i) => {
                let r = match e.sums.get(s) {
                    Some(r) => *r,
                    None => {
                        let f = &self.sums[*s as usize];
                        let mut r = f.k;
                        for (l, c) in &f.terms { if self.eval_bit(*l, e) { r = r.wrapping_add(*c); } }
                        let r = r & mask128(f.w);
                        e.sums.insert(*s, r);
                        r
                    }
                };
                (r >> i) & 1 == 1
            }
            VarKind::App(a, x, i) => {
                let r = match e.apps.get(a) {
                    Some(r) => r.clone(),
                    None => {
                        let (c, args) = &self.apps[*a as usize];
                        let k: Vec<u64> = args.iter().map(|v| self.eval0(*v, e) as u64).collect();
                        let r = Rc::new(crate::spec::concrete(*c, &k));
                        e.apps.insert(*a, r.clone());
                        r
                    }
                };
                (r[*x as usize] >> i) & 1 == 1
            }
            VarKind::Term(t, i) => {
                let r = match e.terms.get(t) {
                    Some(r) => *r,
                    None => {
                        let (c, a, b) = self.term_def[*t as usize];
                        let (x, y) = (self.eval0(a, e), self.eval0(b, e));
                        let r = match self.op_at(c, a, x, y) { Some(r) => r, None => { e.unknown = true; 0 } };
                        e.terms.insert(*t, r);
                        r
                    }
                };
                (r >> i) & 1 == 1
            }
        };
        e.vars.insert(v, r);
        r
    }
    /// A point of the input space where the bit is true, if one can be found.
    pub fn find_point(&self, b: Bit) -> Option<Eval> {
        if b == F || Self::is_undef(b) { return None; }
        let sg = self.sig(b);
        if sg != 0 {
            let mut e = Eval { point: Some(sg.trailing_zeros()), ..Default::default() };
            if self.eval_bit(b, &mut e) && !e.unknown { return Some(e); }
        }
        // a path of the diagram, inputs only; opaque terms are re-evaluated
        for seed in 0..48u64 {
            let mut e = Eval { seed, ..Default::default() };
            if seed % 2 == 0 {
                let mut x = b;
                let mut k = 0u64;
                while x > 1 {
                    let n = self.nodes[(x >> 1) as usize];
                    let (lo, hi) = (n.lo ^ (x & 1), n.hi ^ (x & 1));
                    let hi_first = (seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (k % 61)) & 1 == 1;
                    k += 1;
                    let take = if lo == F { true } else if hi == F { false } else { hi_first };
                    if let VarKind::Input(..) = self.vars[n.var as usize].0 { e.vars.insert(n.var, take); }
                    x = if take { hi } else { lo };
                }
            }
            if self.eval_bit(b, &mut e) && !e.unknown { return Some(e); }
        }
        None
    }
    /// Point where two values differ (under a condition).
    pub fn find_diff(&mut self, a: &Val, b: &Val, pc: Bit) -> Option<Eval> {
        if a == b { return None; }
        let (x, y) = (self.bits(a), self.bits(b));
        for i in 0..x.len().min(y.len()) {
            if Self::is_undef(x[i]) || Self::is_undef(y[i]) { continue; }
            let m = (self.sig(x[i]) ^ self.sig(y[i])) & self.sig(pc);
            if m != 0 {
                let mut e = Eval { point: Some(m.trailing_zeros()), ..Default::default() };
                if self.eval_bit(pc, &mut e) && self.eval_bit(x[i], &mut e) != self.eval_bit(y[i], &mut e) && !e.unknown { return Some(e); }
            }
        }
        for i in 0..x.len().min(y.len()) {
            if x[i] == y[i] { continue; }
            if Self::is_undef(x[i]) || Self::is_undef(y[i]) { continue; }
            let d = self.budget(200_000, |d| { let t = d.xor(x[i], y[i]); d.and(t, pc) });
            match d {
                Some(d) => if let Some(e) = self.find_point(d) { return Some(e); },
                None => for seed in 0..16 {
                    let mut e = Eval { seed, ..Default::default() };
                    if self.eval_bit(pc, &mut e) && self.eval_bit(x[i], &mut e) != self.eval_bit(y[i], &mut e) && !e.unknown { return Some(e); }
                },
            }
        }
        None
    }
    /// The assigned inputs of a point, as text.
    pub fn point_text(&self, e: &Eval) -> String {
        let mut by: std::collections::BTreeMap<String, (u128, u32)> = Default::default();
        for (v, x) in &e.vars {
            if let VarKind::Input(n, i) = &self.vars[*v as usize].0 {
                let en = by.entry(n.clone()).or_default();
                if *x && *i < 128 { en.0 |= 1 << i; }
                en.1 += 1;
            }
        }
        let mut s: Vec<String> = by.iter().take(40).map(|(n, (v, _))| format!("{n}=0x{v:x}")).collect();
        if by.len() > 40 { s.push(format!("... {} inputs", by.len())); }
        s.join(" ")
    }
    pub fn describe(&self, v: &Val) -> String {
        match v {
            Val::I(w, k) => format!("0x{k:x}:i{w}"),
            Val::W(i) => {
                if let Some(p) = self.prov.get(i) { return format!("w{}=sum({} terms, k=0x{:x}):i{}", i, p.terms.len(), p.k, p.w); }
                let b = &self.words[*i as usize];
                let s: Vec<String> = b.iter().take(8).map(|x| self.bit_str(*x)).collect();
                format!("w{}[{}{}]:i{}", i, s.join(","), if b.len() > 8 { ",.." } else { "" }, b.len())
            }
            Val::Agg(a) => format!("{{{}}}", a.iter().map(|x| self.describe(x)).collect::<Vec<_>>().join(", ")),
        }
    }
    fn bit_str(&self, b: Bit) -> String {
        if b == F { return "0".into(); }
        if b == T { return "1".into(); }
        if Self::is_undef(b) { return "U".into(); }
        let n = self.nodes[(b >> 1) as usize];
        let (name, i) = self.var_name(n.var);
        let simple = n.lo <= 1 && n.hi <= 1;
        format!("{}{}.{}{}", if b & 1 == 1 && simple { "" } else if simple { "!" } else { "f(" }, name, i, if simple { "" } else { "..)" })
    }
}
