//! Forward analysis of the IR: one abstract state, both sides of an undecided branch analysed to
//! their post-dominator and joined there. Nothing is executed.
use crate::dom::*;
use crate::fx::{Map, Set};
use crate::ir::*;
use crate::steady::{self, Entry, Rule};
use std::rc::Rc;
use std::sync::Arc;

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct Alloc {
    pub bytes: Vec<u32>, // <256 constant, 256 undefined, 257+word id
    pub base: u64,
    pub live: bool,
    pub ro: bool,
    pub env: bool, // mutable global
    pub heap: bool,
    /// Size of an input of arbitrary bytes, created when they are read.
    pub lazy: u64,
    pub name: Rc<str>,
}
impl Alloc { pub fn size(&self) -> u64 { if self.lazy != 0 { self.lazy } else { self.bytes.len() as u64 } } }

#[derive(Clone)]
pub struct State {
    pub mem: Map<u32, Rc<Alloc>>,
    pub pc: Bit,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ev { Panic, Ub, SecretBranch, SecretAddr, GlobalWrite, GlobalRead, Alloc, Extern, Gate }

#[derive(Clone)]
pub struct Event {
    pub kind: Ev,
    pub msg: String,
    pub loc: String,  // innermost location in the analysed crate: file:line in function
    pub key: String,  // file and function only
    pub pc: Bit,
    pub stack: Vec<String>,
}

struct Frame {
    fid: usize,
    f: Arc<Func>,
    regs: Vec<Option<Val>>,
    visits: Map<usize, Vec<Visit>>,
}

/// A loop on entry of its header: the state, and where the chaining value is in it.
#[derive(Clone)]
struct Visit { mem: Map<u32, Rc<Alloc>>, regs: Vec<Option<Val>>, insts: u64, at: usize, locs: Vec<(u32, usize, usize, bool)> }

/// Loops over the blocks of a very long message: once an iteration is seen to replace the chaining value by the
/// definition's next one and otherwise to move constants on by constant steps, the analysis goes on from a late
/// iteration with an arbitrary chaining value, after checking that the same holds for that iteration.
pub struct Accel {
    pub alg: crate::spec::Alg,
    pub total: usize,                 // whole blocks of the message
    pub at: usize,                    // blocks before `h`
    pub h: Vec<Val>,
    pub head: Vec<Val>,               // message bytes before the ones in memory
    pub msg: u64,
    keys: Map<Vec<u32>, (usize, usize, bool)>,
    pub jumps: usize,
    busy: bool,
    pub why: String,                  // why a jump was refused, for diagnostics
}

enum Out { Stop, Ret(Option<Val>), Dead }

#[derive(Clone, Copy, PartialEq)]
enum Special { None, CpuTest, RAlloc, RAllocZ, RDealloc, RRealloc, Nop, Memcpy, Memmove, Memset, Memcmp }

pub struct Interp {
    pub p: Arc<Program>,
    pub d: Dom,
    pub st: State,
    pub events: Vec<Event>,
    evkeys: Map<(Ev, String, String), usize>,
    stack: Vec<(usize, u32)>,
    consts: Map<u32, Rc<Alloc>>,
    galloc: Map<usize, u64>,
    next_id: u32,
    special: Vec<Special>,
    pub fuel: u64,
    pub insts: u64,
    pub funcs_seen: Set<usize>,
    pub calls: u64,
    pub branches: u64,
    pub joins: u64,
    pub accesses: u64,
    pub cpu: Map<u64, Bit>,
    pub gates: Map<String, Vec<u64>>, // feature name -> CPU test numbers that imply it
    pub check_gates: bool,
    pub origin: Map<u32, (usize, u32)>,
    env_n: u32,
    pub trace_mem: bool,
    /// The constants of an iteration that is being tried out.
    trail: Option<Vec<Entry>>,
    /// Calls with a pointer into this object are recorded: function, arguments, object before and after.
    pub watch: Option<u32>,
    pub watched: Vec<(usize, Vec<Val>, Vec<u32>, Vec<u32>)>,
    /// Functions whose effect is a compression function, established beforehand.
    pub summ: Map<usize, Rc<Summ>>,
    pub summ_used: u64,
    pub accel: Option<Box<Accel>>,
    pub lazy: Map<(u64, u64), u32>,
    /// One past the last byte of such an input that was read.
    pub lazy_max: u64,
    pub nest: u32,
}

/// Effect of a function: the chaining value found at `h` (word offsets from argument `harg`) is replaced by
/// its compression with the block found at `block` (argument, offset); nothing else changes.
#[derive(Clone, Debug, PartialEq)]
pub struct Summ { pub alg: crate::spec::Alg, pub harg: usize, pub h: Vec<i64>, pub be: bool, pub block: Option<(usize, i64)> }

const FBASE: u64 = 1 << 62;
const BASELINE: &[&str] = &["fxsr", "sse", "sse2", "x87", "cmov", "cx8", "mmx", "crc32", "64bit"];

fn special_of(name: &str, pretty: &str) -> Special {
    if pretty.contains("std_detect::detect::cache::test") || name.contains("std_detect6detect5cache4test") || name.contains("std_detect6detect9check_for") { return Special::CpuTest; }
    if name.contains("___rust_alloc_zeroed") { return Special::RAllocZ; }
    if name.contains("___rust_alloc") { return Special::RAlloc; }
    if name.contains("___rust_dealloc") { return Special::RDealloc; }
    if name.contains("___rust_realloc") { return Special::RRealloc; }
    if name.contains("___rust_no_alloc_shim_is_unstable") { return Special::Nop; }
    match name {
        "memcpy" => Special::Memcpy,
        "memmove" => Special::Memmove,
        "memset" => Special::Memset,
        "memcmp" | "bcmp" => Special::Memcmp,
        _ => Special::None,
    }
}

impl Interp {
    pub fn new(p: Arc<Program>) -> Interp {
        let special = p.funcs.iter().map(|f| special_of(&f.name, &f.pretty)).collect();
        Interp {
            p, d: Dom::new(), st: State { mem: Map::default(), pc: T }, events: vec![], evkeys: Map::default(), stack: vec![],
            consts: Map::default(), galloc: Map::default(), next_id: 16, special, fuel: 400_000_000, insts: 0,
            funcs_seen: Set::default(), calls: 0, branches: 0, joins: 0, accesses: 0, cpu: Map::default(), gates: Map::default(), check_gates: false,
            origin: Map::default(), env_n: 0, trace_mem: false, trail: None, watch: None, watched: vec![], summ: Map::default(), summ_used: 0, accel: None, lazy: Map::default(), lazy_max: 0, nest: 0,
        }
    }

    // ------------------------------------------------------------ locations and events
    pub fn loc_of(&self, fid: usize, dbg: u32) -> (String, u32, String) {
        let fe = &self.p.funcs[fid];
        let l = self.p.locs(fe.module, dbg);
        match l.into_iter().next() {
            Some(x) => x,
            None => (String::new(), 0, fe.pretty.clone()),
        }
    }
    fn is_repo(&self, fid: usize) -> bool { self.p.modules[self.p.funcs[fid].module].krate == "chf" }
    fn repo_top(&self) -> Option<(usize, u32)> {
        self.stack.iter().rev().find(|s| self.repo_frame(s.0, s.1)).copied()
    }
    /// True if the frame's code comes from the analysed crate (also generics instantiated elsewhere).
    fn repo_frame(&self, fid: usize, dbg: u32) -> bool {
        if self.is_repo(fid) { return self.loc_of(fid, dbg).0.starts_with("/repo/"); }
        let k = &self.p.modules[self.p.funcs[fid].module].krate;
        k == "harness" && self.loc_of(fid, dbg).0.starts_with("/repo/")
    }
    pub fn loc_str(&self, at: Option<(usize, u32)>) -> (String, String) {
        match at {
            Some((f, d)) => {
                let (file, line, _) = self.loc_of(f, d);
                let func = self.p.funcs[f].pretty.clone();
                let file = file.strip_prefix("/repo/").unwrap_or(&file).to_string();
                (format!("{file}:{line} in {func}"), format!("{file} {func}"))
            }
            None => ("(outside the crate)".into(), "(outside the crate)".into()),
        }
    }
    pub fn event(&mut self, kind: Ev, msg: String, pc: Bit) {
        if pc == F { return; }
        let top = self.repo_top();
        let (loc, key) = self.loc_str(top);
        let k = (kind, loc.clone(), msg.clone());
        if let Some(i) = self.evkeys.get(&k) {
            let i = *i;
            let o = self.events[i].pc;
            if o != T { self.events[i].pc = if Dom::is_undef(pc) { o } else { self.d.or(o, pc) }; }
            return;
        }
        let stack = self.stack.iter().rev().take(12).map(|s| { let (f, l, _) = self.loc_of(s.0, s.1); format!("{} ({}:{})", self.p.funcs[s.0].pretty, f, l) }).collect();
        self.evkeys.insert(k, self.events.len());
        self.events.push(Event { kind, msg, loc, key, pc, stack });
    }
    pub fn take_events(&mut self) -> Vec<Event> {
        self.evkeys.clear();
        std::mem::take(&mut self.events)
    }

    // ------------------------------------------------------------ memory
    fn new_id(&mut self) -> u32 { self.next_id += 1; self.next_id }
    pub fn alloc(&mut self, size: usize, align: u64, name: &str) -> u64 {
        let id = self.new_id();
        let base = ((id as u64) << 32) + align;
        self.st.mem.insert(id, Rc::new(Alloc { bytes: vec![256; size], base, live: true, ro: false, env: false, heap: false, lazy: 0, name: name.into() }));
        base
    }
    pub fn enc(&self, v: &Val) -> u32 {
        match v {
            Val::I(_, k) => *k as u32 & 255,
            Val::W(i) => if self.d.words[*i as usize].iter().all(|b| *b == U) { 256 } else { 257 + i },
            _ => 256,
        }
    }
    pub fn dec(&mut self, b: u32) -> Val {
        if b < 256 { Val::I(8, b as u64) } else if b == 256 { self.d.undef(8) } else { Val::W(b - 257) }
    }
    pub fn put(&mut self, addr: u64, vals: &[Val]) {
        let e: Vec<u32> = vals.iter().map(|v| self.enc(v)).collect();
        let id = (addr >> 32) as u32;
        let a = Rc::make_mut(self.st.mem.get_mut(&id).expect("put"));
        let o = (addr - a.base) as usize;
        a.bytes[o..o + e.len()].copy_from_slice(&e);
    }
    pub fn put_raw(&mut self, addr: u64, e: &[u32]) {
        let id = (addr >> 32) as u32;
        let a = Rc::make_mut(self.st.mem.get_mut(&id).expect("put"));
        let o = (addr - a.base) as usize;
        a.bytes[o..o + e.len()].copy_from_slice(e);
    }
    pub fn get_raw(&self, addr: u64, n: usize) -> Vec<u32> {
        let id = (addr >> 32) as u32;
        let a = self.st.mem.get(&id).or_else(|| self.consts.get(&id)).expect("get");
        let o = (addr - a.base) as usize;
        a.bytes[o..o + n].to_vec()
    }
    pub fn get(&mut self, addr: u64, n: usize) -> Vec<Val> {
        let r = self.get_raw(addr, n);
        r.into_iter().map(|b| self.dec(b)).collect()
    }
    pub fn bytes_in(&mut self, vals: &[Val], align: u64, name: &str) -> u64 {
        let a = self.alloc(vals.len(), align, name);
        self.put(a, vals);
        let id = (a >> 32) as u32;
        Rc::make_mut(self.st.mem.get_mut(&id).unwrap()).ro = true;
        a
    }
    /// An input of `n` arbitrary bytes, however long.
    pub fn lazy_in(&mut self, n: u64, align: u64, name: &str) -> u64 {
        let id = self.new_id();
        let base = ((id as u64) << 32) + align;
        let a = Rc::new(Alloc { bytes: vec![], base, live: true, ro: true, env: false, heap: false, lazy: n, name: name.into() });
        for i in 0..=((n + align) >> 32) as u32 { self.st.mem.insert(id + i, a.clone()); }
        self.next_id = id + ((n + align) >> 32) as u32;
        base
    }
    fn lazy_bytes(&mut self, a: &Rc<Alloc>, off: usize, n: usize) -> Vec<u32> {
        (0..n).map(|i| {
            let k = (a.base, (off + i) as u64);
            if let Some(v) = self.lazy.get(&k) { return *v; }
            let v = if &*a.name == "text" { let v = self.d.fresh(&format!("{}[{}]", a.name, off + i), 7, SECRET); self.d.zext(&v, 8) } else { self.d.fresh(&format!("{}[{}]", a.name, off + i), 8, SECRET) };
            let v = self.enc(&v);
            self.lazy.insert(k, v);
            v
        }).collect()
    }
    pub fn lazy_get(&mut self, base: u64, off: u64, n: usize) -> Vec<Val> {
        let a = self.st.mem[&((base >> 32) as u32)].clone();
        let r = self.lazy_bytes(&a, off as usize, n);
        r.into_iter().map(|b| self.dec(b)).collect()
    }
    fn touch(&mut self, end: usize) { if !self.accel.as_ref().map_or(false, |a| a.busy) { self.lazy_max = self.lazy_max.max(end as u64); } }
    pub fn free(&mut self, addr: u64) { self.st.mem.remove(&((addr >> 32) as u32)); }
    pub fn try_bytes(&self, addr: u64, n: usize) -> Option<Vec<u32>> {
        let id = (addr >> 32) as u32;
        let a = self.st.mem.get(&id).or_else(|| self.consts.get(&id))?;
        let o = addr.checked_sub(a.base)? as usize;
        if a.lazy != 0 { return (0..n as u64).map(|i| self.lazy.get(&(a.base, o as u64 + i)).copied()).collect(); }
        if o + n > a.bytes.len() { return None; }
        Some(a.bytes[o..o + n].to_vec())
    }

    /// Checks an access; None (and an event) if it is invalid.
    fn check(&mut self, addr: u64, size: u64, align: u64, write: bool, pc: Bit) -> Option<(u32, usize)> {
        self.accesses += 1;
        let id = (addr >> 32) as u32;
        if align > 1 && addr % align != 0 {
            self.event(Ev::Ub, format!("misaligned access (needs {align})"), pc);
            return None;
        }
        if addr & FBASE != 0 && addr >> 62 == 1 {
            self.event(Ev::Ub, "data access through a function pointer".into(), pc);
            return None;
        }
        let a = match self.st.mem.get(&id).or_else(|| self.consts.get(&id)) {
            Some(a) => a.clone(),
            None => {
                let what = if addr < 4096 { "null or dangling" } else { "dead or invalid" };
                self.event(Ev::Ub, format!("access of {size} bytes through a {what} pointer"), pc);
                return None;
            }
        };
        if !a.live {
            self.event(Ev::Ub, format!("access to freed memory ({})", a.name), pc);
            return None;
        }
        let off = addr.wrapping_sub(a.base);
        if off > a.size() || off + size > a.size() {
            let w = if write { "write" } else { "read" };
            self.event(Ev::Ub, format!("out-of-bounds {w} of {size} bytes at offset {} of `{}` ({} bytes)", off as i64, a.name, a.size()), pc);
            return None;
        }
        if write && a.ro {
            self.event(Ev::Ub, format!("write to read-only memory `{}`", a.name), pc);
            return None;
        }
        if a.env {
            if write { self.event(Ev::GlobalWrite, format!("writes the global `{}`", a.name), pc); }
            else { self.event(Ev::GlobalRead, format!("reads the mutable global `{}`", a.name), pc); }
        }
        Some((id, off as usize))
    }
    fn load_at(&mut self, id: u32, off: usize, n: usize, w: u32) -> Val {
        let a = match self.st.mem.get(&id) { Some(a) => a.clone(), None => self.consts[&id].clone() };
        if a.env {
            self.env_n += 1;
            let nm = format!("env{}", self.env_n);
            return self.d.fresh(&nm, w, ENV);
        }
        let lz;
        let s = if a.lazy != 0 { self.touch(off + n); lz = self.lazy_bytes(&a, off, n); &lz[..] } else { &a.bytes[off..off + n] };
        if n == 1 {
            let v = self.dec(s[0]);
            return if w == 8 { v } else { self.d.trunc(&v, w) };
        }
        if n <= 8 && s.iter().all(|b| *b < 256) {
            let mut k = 0u64;
            for (i, b) in s.iter().enumerate() { k |= (*b as u64) << (8 * i); }
            return Val::I(w, k & mask(w));
        }
        let mut bits = Vec::with_capacity(n * 8);
        for b in s {
            if *b < 256 { for i in 0..8 { bits.push((b >> i) & 1); } }
            else if *b == 256 { bits.extend_from_slice(&[U; 8]); }
            else { bits.extend_from_slice(&self.d.words[(*b - 257) as usize]); }
        }
        bits.truncate(w as usize);
        self.d.word(&bits)
    }
    fn bytes_of(&mut self, v: &Val, n: usize) -> Vec<u32> {
        match v {
            Val::I(_, k) => (0..n).map(|i| if i < 8 { ((k >> (8 * i)) & 255) as u32 } else { 0 }).collect(),
            Val::W(_) => {
                let b = self.d.bits(v);
                let mut b = b.to_vec();
                b.resize(n * 8, F);
                b.chunks(8).map(|c| { let x = self.d.word(c); self.enc(&x) }).collect()
            }
            _ => unreachable!(),
        }
    }
    /// Writes bytes where `c` holds.
    fn store_raw(&mut self, id: u32, off: usize, b: &[u32], c: Bit) {
        let Some(rc) = self.st.mem.get_mut(&id) else { return };
        if rc.env { return; }
        if c == T {
            let a = Rc::make_mut(rc);
            a.bytes[off..off + b.len()].copy_from_slice(b);
        } else {
            let old: Vec<u32> = rc.bytes[off..off + b.len()].to_vec();
            let new: Vec<u32> = old.iter().zip(b).map(|(o, n)| self.mux_byte(c, *n, *o)).collect();
            let a = Rc::make_mut(self.st.mem.get_mut(&id).unwrap());
            a.bytes[off..off + b.len()].copy_from_slice(&new);
        }
    }
    fn mux_byte(&mut self, c: Bit, a: u32, b: u32) -> u32 {
        if a == b { return a; }
        let (x, y) = (self.dec(a), self.dec(b));
        let v = self.d.select(c, &x, &y);
        self.enc(&v)
    }
    fn addrs(&mut self, p: &Val) -> R<Vec<(Bit, u64)>> {
        if let Val::I(_, k) = p { return Ok(vec![(T, *k)]); }
        if self.d.has_undef(p) {
            self.event(Ev::Ub, "access through an undefined pointer".into(), self.st.pc);
            return Ok(vec![]);
        }
        if self.d.vtaint(p) & SECRET != 0 { self.event(Ev::SecretAddr, "memory address depends on secret data".into(), self.st.pc); }
        let pc = self.st.pc;
        self.d.enumerate(p, pc, 2048).ok_or_else(|| format!("too many addresses: {}", self.d.describe(p)))
    }
    fn load(&mut self, ty: &Ty, p: &Val, align: u64, noundef: bool) -> R<Option<Val>> {
        if !ty.is_scalar() {
            let mut out = vec![];
            let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, _ => return Err("load type".into()) };
            for i in 0..n {
                let o = Val::I(64, ty.field_offset(i));
                let q = self.d.add(p, &o);
                let t = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) => (**t).clone(), _ => unreachable!() };
                match self.load(&t, &q, 1, noundef)? { Some(v) => out.push(v), None => return Ok(None) }
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let n = ty.store_size() as usize;
        let w = ty.bits();
        if let Val::I(_, k) = p {
            let pc = self.st.pc;
            let Some((id, off)) = self.check(*k, n as u64, align, false, pc) else { return Ok(None) };
            let v = self.load_at(id, off, n, w);
            if noundef && self.d.has_undef(&v) {
                self.event(Ev::Ub, "read of uninitialised memory".into(), pc);
            }
            return Ok(Some(v));
        }
        let list = self.addrs(p)?;
        let mut acc: Option<Val> = None;
        let mut bad = F;
        for (c, k) in list {
            let pc = self.d.and(self.st.pc, c);
            if pc == F { continue; }
            match self.check(k, n as u64, align, false, pc) {
                None => bad = self.d.or(bad, c),
                Some((id, off)) => {
                    let v = self.load_at(id, off, n, w);
                    acc = Some(match acc { None => v, Some(a) => self.d.select(c, &v, &a) });
                }
            }
        }
        if bad != F { self.st.pc = self.d.and(self.st.pc, bad ^ 1); }
        if let Some(v) = &acc { if noundef && self.d.has_undef(v) { self.event(Ev::Ub, "read of uninitialised memory".into(), self.st.pc); } }
        Ok(acc)
    }
    fn store(&mut self, ty: &Ty, v: &Val, p: &Val, align: u64) -> R<bool> {
        if let Val::Agg(a) = v {
            for i in 0..a.len() {
                let o = Val::I(64, ty.field_offset(i));
                let q = self.d.add(p, &o);
                let t = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) => (**t).clone(), _ => return Err("store type".into()) };
                if !self.store(&t, &a[i], &q, 1)? { return Ok(false); }
            }
            return Ok(true);
        }
        let n = ty.store_size() as usize;
        let b = self.bytes_of(v, n);
        self.write_to(p, &b, align)
    }
    fn write_to(&mut self, p: &Val, b: &[u32], align: u64) -> R<bool> {
        let list = self.addrs(p)?;
        let single = list.len() == 1;
        let mut any = false;
        let mut bad = F;
        for (c, k) in list {
            let pc = self.d.and(self.st.pc, c);
            if pc == F { continue; }
            match self.check(k, b.len() as u64, align, true, pc) {
                None => bad = self.d.or(bad, c),
                Some((id, off)) => { any = true; self.store_raw(id, off, b, if single { T } else { c }); }
            }
        }
        if bad != F && any { self.st.pc = self.d.and(self.st.pc, bad ^ 1); }
        Ok(any)
    }
    fn memcpy(&mut self, dst: &Val, src: &Val, n: &Val, overlap_ok: bool) -> R<bool> {
        let pc = self.st.pc;
        let ns = self.d.enumerate(n, pc, 512).ok_or("memcpy with unbounded length")?;
        if !matches!(n, Val::I(..)) && self.d.vtaint(n) & SECRET != 0 { self.event(Ev::SecretAddr, "copy length depends on secret data".into(), pc); }
        let ds = self.addrs(dst)?;
        let ss = self.addrs(src)?;
        let mut any = false;
        let mut bad = F;
        let single = ns.len() == 1 && ds.len() == 1 && ss.len() == 1;
        let snap = self.st.mem.clone();
        for (cn, k) in &ns {
            if *k == 0 { any = true; continue; }
            for (cs, s) in &ss {
                let c1 = self.d.and(*cn, *cs);
                let pc1 = self.d.and(pc, c1);
                if pc1 == F { continue; }
                let Some((sid, so)) = self.check(*s, *k, 1, false, pc1) else { bad = self.d.or(bad, c1); continue };
                let bytes: Vec<u32> = {
                    let a = match snap.get(&sid) { Some(a) => a.clone(), None => self.consts[&sid].clone() };
                    if a.env {
                        (0..*k).map(|_| { self.env_n += 1; let nm = format!("env{}", self.env_n); let v = self.d.fresh(&nm, 8, ENV); self.enc(&v) }).collect()
                    } else if a.lazy != 0 {
                        if *k > 1 << 20 { return Err("copy of a very long message".into()); }
                        self.touch(so + *k as usize);
                        self.lazy_bytes(&a, so, *k as usize)
                    } else { a.bytes[so..so + *k as usize].to_vec() }
                };
                for (cd, dd) in &ds {
                    let c2 = self.d.and(c1, *cd);
                    let pc2 = self.d.and(pc, c2);
                    if pc2 == F { continue; }
                    let Some((did, d0)) = self.check(*dd, *k, 1, true, pc2) else { bad = self.d.or(bad, c2); continue };
                    if !overlap_ok && did == sid && d0 != so && d0 < so + *k as usize && so < d0 + *k as usize {
                        self.event(Ev::Ub, "overlapping copy_nonoverlapping".into(), pc2);
                    }
                    any = true;
                    self.store_raw(did, d0, &bytes, if single { T } else { c2 });
                }
            }
        }
        if bad != F && any { self.st.pc = self.d.and(self.st.pc, bad ^ 1); }
        Ok(any)
    }
    fn memset(&mut self, dst: &Val, v: &Val, n: &Val) -> R<bool> {
        let pc = self.st.pc;
        let ns = self.d.enumerate(n, pc, 512).ok_or("memset with unbounded length")?;
        let single = ns.len() == 1;
        let b = self.enc(v);
        let mut any = false;
        for (c, k) in ns {
            if k == 0 { any = true; continue; }
            if k > 1 << 20 { return Err("huge memset".into()); }
            let bytes = vec![b; k as usize];
            if single { any |= self.write_to(dst, &bytes, 1)?; continue; }
            let ds = self.addrs(dst)?;
            for (cd, dd) in ds {
                let c2 = self.d.and(c, cd);
                let pc2 = self.d.and(pc, c2);
                if pc2 == F { continue; }
                if let Some((id, o)) = self.check(dd, k, 1, true, pc2) { any = true; self.store_raw(id, o, &bytes, c2); }
            }
        }
        Ok(any)
    }
    fn memcmp(&mut self, a: &Val, b: &Val, n: &Val) -> R<Option<Val>> {
        let pc = self.st.pc;
        let ns = self.d.enumerate(n, pc, 512).ok_or("memcmp with unbounded length")?;
        let la = self.addrs(a)?;
        let lb = self.addrs(b)?;
        let mut acc: Option<Val> = None;
        for (c, k) in ns {
            for (ca, pa) in &la {
                for (cb, pb) in &lb {
                    let mut c2 = self.d.and(c, *ca);
                    c2 = self.d.and(c2, *cb);
                    let pcx = self.d.and(pc, c2);
                    if pcx == F { continue; }
                    let r = if k == 0 { Val::I(32, 0) } else {
                        let Some((ia, oa)) = self.check(*pa, k, 1, false, pcx) else { continue };
                        let Some((ib, ob)) = self.check(*pb, k, 1, false, pcx) else { continue };
                        let (mut eq, mut lt) = (T, F);
                        let mut secret = false;
                        for i in 0..k as usize {
                            let x = self.load_at(ia, oa + i, 1, 8);
                            let y = self.load_at(ib, ob + i, 1, 8);
                            if (self.d.vtaint(&x) | self.d.vtaint(&y)) & SECRET != 0 { secret = true; }
                            if self.d.has_undef(&x) || self.d.has_undef(&y) {
                                self.event(Ev::Ub, "comparison of uninitialised memory".into(), pcx);
                                return Ok(None);
                            }
                            let l = self.d.ult(&x, &y);
                            let e = self.d.eq(&x, &y);
                            let le = self.d.and(eq, l);
                            lt = self.d.or(lt, le);
                            eq = self.d.and(eq, e);
                        }
                        if secret { self.event(Ev::SecretBranch, "variable-time memory comparison of secret data".into(), pcx); }
                        let one = Val::I(32, 1);
                        let m1 = Val::I(32, 0xffff_ffff);
                        let v = self.d.select(lt, &m1, &one);
                        self.d.select(eq, &Val::I(32, 0), &v)
                    };
                    acc = Some(match acc { None => r, Some(o) => self.d.select(c2, &r, &o) });
                }
            }
        }
        Ok(acc)
    }

    // ------------------------------------------------------------ constants
    fn global(&mut self, module: usize, name: &str) -> R<u64> {
        if let Some(f) = self.p.modules[module].funcs.get(name).copied() { return Ok(FBASE | ((f as u64) << 4)); }
        let g = match self.p.resolve_global(module, name) {
            Some(g) => g,
            None => {
                if let Some(f) = self.p.ext_funcs.get(name) { return Ok(FBASE | ((*f as u64) << 4)); }
                // declared elsewhere only: an opaque function
                return Ok((FBASE << 0) | (0xfff_ffff << 4));
            }
        };
        if let Some(a) = self.galloc.get(&g) { return Ok(*a); }
        let p = self.p.clone();
        let (ty, init, align) = p.global_init(g)?;
        let ge = &p.globals[g];
        let size = ty.size() as usize;
        let id = self.new_id();
        let base = ((id as u64) << 32) + align.max(1);
        self.galloc.insert(g, base);
        let mut bytes = vec![256u32; size];
        let constant = ge.constant && !ge.tls;
        if let Some(c) = &init { if constant { self.const_bytes(ge.module, &ty, c, &mut bytes, 0)?; } }
        let a = Alloc { bytes, base, live: true, ro: constant, env: !constant || init.is_none(), heap: false, lazy: 0, name: ge.name.as_str().into() };
        self.consts.insert(id, Rc::new(a));
        Ok(base)
    }
    fn const_bytes(&mut self, module: usize, ty: &Ty, c: &Const, out: &mut [u32], off: usize) -> R<()> {
        match c {
            Const::Int(_, k) => for i in 0..ty.store_size() as usize { out[off + i] = if i < 16 { ((k >> (8 * i)) & 255) as u32 } else { 0 }; },
            Const::Undef(_) => {}
            Const::Zero(_) => for i in 0..ty.size() as usize { out[off + i] = 0; },
            Const::Bytes(b) => for (i, x) in b.iter().enumerate() { out[off + i] = *x as u32; },
            Const::Agg(t, v) => {
                for (i, x) in v.iter().enumerate() {
                    let et = match t { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => return Err("aggregate type".into()) };
                    self.const_bytes(module, &et, x, out, off + t.field_offset(i) as usize)?;
                }
            }
            Const::Sym(_) | Const::Off(..) | Const::Cast(_) => {
                let v = self.konst(module, c)?;
                let b = self.bytes_of(&v, ty.store_size() as usize);
                out[off..off + b.len()].copy_from_slice(&b);
            }
            Const::Bad(b) => return Err(format!("constant {b}")),
        }
        Ok(())
    }
    fn undef_of(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Struct(f, _) => { let v = f.iter().map(|x| self.undef_of(x)).collect(); Val::Agg(Rc::new(v)) }
            Ty::Arr(n, e) => { let v = (0..*n).map(|_| self.undef_of(e)).collect(); Val::Agg(Rc::new(v)) }
            t => self.d.undef(t.bits().max(1)),
        }
    }
    fn zero_of(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Struct(f, _) => { let v = f.iter().map(|x| self.zero_of(x)).collect(); Val::Agg(Rc::new(v)) }
            Ty::Arr(n, e) => { let v = (0..*n).map(|_| self.zero_of(e)).collect(); Val::Agg(Rc::new(v)) }
            t => self.d.konst(t.bits(), 0),
        }
    }
    fn konst(&mut self, module: usize, c: &Const) -> R<Val> {
        Ok(match c {
            Const::Int(w, k) => self.d.konst(*w, *k),
            Const::Undef(t) => self.undef_of(t),
            Const::Zero(t) => self.zero_of(t),
            Const::Sym(n) => Val::I(64, self.global(module, n)?),
            Const::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::I(8, *x as u64)).collect())),
            Const::Agg(t, v) => {
                let mut o = vec![];
                for x in v { o.push(self.konst(module, x)?); }
                if let Ty::Vec(..) = t { self.d.concat(&o) } else { Val::Agg(Rc::new(o)) }
            }
            Const::Off(b, k) => { let v = self.konst(module, b)?; self.d.add(&v, &Val::I(64, *k as u64)) }
            Const::Cast(b) => self.konst(module, b)?,
            Const::Bad(s) => return Err(format!("constant {s}")),
        })
    }
    fn op(&mut self, fr: &Frame, o: &Opd) -> R<Val> {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone().ok_or_else(|| format!("register used before definition in {}", self.p.funcs[fr.fid].pretty)),
            Opd::C(Const::Int(w, k)) if *w <= 64 => Ok(Val::I(*w, *k as u64)),
            Opd::C(c) => { let m = self.p.funcs[fr.fid].module; self.konst(m, c) }
        }
    }

    // ------------------------------------------------------------ control
    pub fn call_name(&mut self, name: &str, args: &[Val]) -> R<Option<Option<Val>>> {
        let f = self.p.find(name).ok_or_else(|| format!("no entry point {name}"))?;
        self.nest = 0;
        self.call_fn(f, args)
    }
    /// None: does not return.
    pub fn call_fn(&mut self, fid: usize, args: &[Val]) -> R<Option<Option<Val>>> {
        if self.stack.len() > 400 { return Err("call depth".into()); }
        let p = self.p.clone();
        let f = p.func(fid)?;
        self.funcs_seen.insert(fid);
        self.calls += 1;
        let mut fr = Frame { fid, regs: vec![None; f.nregs], f: f.clone(), visits: Map::default() };
        if args.len() != f.params.len() { return Err(format!("argument count for {}", p.funcs[fid].pretty)); }
        for (i, a) in args.iter().enumerate() { fr.regs[f.params[i].1 as usize] = Some(a.clone()); }
        self.stack.push((fid, 0));
        let first = self.next_id;
        let r = self.run(&mut fr, 0, None, EXIT, true);
        self.stack.pop();
        let _ = first;
        // locals die with the frame
        for b in &f.blocks { for i in &b.insts { if let (Op::Alloca { .. }, Some(d)) = (&i.op, i.dst) {
            if let Some(Val::I(_, a)) = &fr.regs[d as usize] { self.st.mem.remove(&((a >> 32) as u32)); }
        } } if !b.insts.iter().any(|i| matches!(i.op, Op::Alloca { .. })) { break; } }
        match r? {
            Out::Ret(v) => Ok(Some(v)),
            Out::Dead => Ok(None),
            Out::Stop => Err("unexpected stop".into()),
        }
    }
    fn phis(&mut self, fr: &mut Frame, b: usize, prev: usize) -> R<()> {
        let f = fr.f.clone();
        let blk = &f.blocks[b];
        if blk.phis.is_empty() { return Ok(()); }
        let mut vals = vec![];
        for p in &blk.phis {
            let (o, _) = p.inc.iter().find(|x| x.1 == prev).ok_or("phi edge")?;
            vals.push((p.dst, self.op(fr, o)?));
        }
        for (d, v) in vals { fr.regs[d as usize] = Some(v); }
        Ok(())
    }
    /// Analyses from the start of block `b` until block `stop` is entered (its phis evaluated).
    fn run(&mut self, fr: &mut Frame, mut b: usize, mut prev: Option<usize>, stop: usize, mut enter: bool) -> R<Out> {
        let f = fr.f.clone();
        loop {
            if enter {
                if let Some(p) = prev { self.phis(fr, b, p)?; }
                if b == stop { return Ok(Out::Stop); }
                if self.accel.is_some() && self.st.pc == T { self.header(fr, b)?; }
            }
            enter = true;
            let blk = &f.blocks[b];
            for ins in &blk.insts {
                self.insts += 1;
                if self.insts > self.fuel { return Err("fuel".into()); }
                if self.insts & 0xfff == 0 && self.d.deadline.map_or(false, |d| std::time::Instant::now() > d) { return Err("time limit of the task".into()); }
                self.stack.last_mut().unwrap().1 = ins.dbg;
                if !self.inst(fr, ins)? { return Ok(Out::Dead); }
                if self.trail.is_some() { self.note(fr, ins)?; }
            }
            self.stack.last_mut().unwrap().1 = blk.tdbg;
            let mut list: Vec<(Bit, usize)> = vec![];
            match &blk.term {
                Term::Ret(v) => {
                    let r = match v { Some((_, o)) => Some(self.op(fr, o)?), None => None };
                    return Ok(Out::Ret(r));
                }
                Term::Unreachable => {
                    self.event(Ev::Ub, "unreachable code is reachable".into(), self.st.pc);
                    return Ok(Out::Dead);
                }
                Term::Br(t) => { prev = Some(b); b = *t; continue; }
                Term::CondBr(c, t, e) => {
                    let v = self.op(fr, c)?;
                    if let Val::I(_, k) = v { prev = Some(b); b = if k & 1 == 1 { *t } else { *e }; continue; }
                    let c = self.d.bit(&v, 0);
                    if Dom::is_undef(c) {
                        self.event(Ev::Ub, "branch on an undefined value".into(), self.st.pc);
                        return Ok(Out::Dead);
                    }
                    list.push((c, *t));
                    list.push((c ^ 1, *e));
                }
                Term::Switch { ty, v, default, cases } => {
                    let v = self.op(fr, v)?;
                    if let Some(k) = self.d.as_const(&v) {
                        if self.trail.is_some() { self.record(blk as *const _ as usize, Rule::Fixed, &[&v]); }
                        prev = Some(b);
                        b = cases.iter().find(|c| c.0 == k).map_or(*default, |c| c.1);
                        continue;
                    }
                    if self.d.has_undef(&v) {
                        self.event(Ev::Ub, "branch on an undefined value".into(), self.st.pc);
                        return Ok(Out::Dead);
                    }
                    let mut rest = T;
                    for (k, t) in cases {
                        let kv = self.d.konst(ty.bits(), *k);
                        let c = self.d.eq(&v, &kv);
                        if c == F { continue; }
                        let nc = self.d.not(c);
                        rest = self.d.and(rest, nc);
                        match list.iter_mut().find(|e| e.1 == *t) { Some(e) => { let o = e.0; let n = self.d.or(o, c); list.iter_mut().find(|e| e.1 == *t).unwrap().0 = n; } None => list.push((c, *t)) }
                    }
                    if rest != F {
                        match list.iter().position(|e| e.1 == *default) { Some(i) => { let n = self.d.or(list[i].0, rest); list[i].0 = n; } None => list.push((rest, *default)) }
                    }
                }
            }
            // feasible targets
            let pc = self.st.pc;
            let mut feas: Vec<(Bit, Bit, usize)> = vec![];
            for (c, t) in list {
                let q = self.d.and(pc, c);
                if q != F { feas.push((c, q, t)); }
            }
            if feas.is_empty() { return Ok(Out::Dead); }
            if feas.len() == 1 { prev = Some(b); b = feas[0].2; continue; }
            self.branches += 1;
            if feas.iter().any(|x| self.d.taint(x.0) & SECRET != 0) {
                self.event(Ev::SecretBranch, "branch depends on secret data".into(), pc);
            }
            let join = f.ipdom[b];
            let base_regs = fr.regs.clone();
            let base_st = self.st.clone();
            let mut acc: Option<(Vec<Option<Val>>, State, Option<Val>)> = None;
            let stk = self.stack.len();
            for (c, q, t) in feas {
                fr.regs = base_regs.clone();
                self.st = base_st.clone();
                self.st.pc = q;
                self.nest += 1;
                if self.nest > 20_000 { return Err("undecided branches nested too deeply".into()); }
                let o = self.run(fr, t, Some(b), join, true)?;
                self.nest -= 1;
                debug_assert_eq!(stk, self.stack.len());
                let rv = match o {
                    Out::Dead => continue,
                    Out::Stop => None,
                    Out::Ret(v) => v,
                };
                let regs = std::mem::take(&mut fr.regs);
                let st = self.st.clone();
                acc = Some(match acc {
                    None => (regs, st, rv),
                    Some((r0, s0, v0)) => {
                        self.joins += 1;
                        // here: c ? new : acc
                        let mut rr = Vec::with_capacity(regs.len());
                        for (x, y) in regs.into_iter().zip(r0) {
                            rr.push(match (x, y) {
                                (Some(x), Some(y)) => Some(if x == y { x } else { self.d.select(c, &x, &y) }),
                                _ => None,
                            });
                        }
                        let st = self.join(c, st, s0);
                        let v = match (rv, v0) { (Some(x), Some(y)) => Some(self.d.select(c, &x, &y)), (x, None) => x, (None, y) => y };
                        (rr, st, v)
                    }
                });
            }
            match acc {
                None => { fr.regs = base_regs; self.st = base_st; return Ok(Out::Dead); }
                Some((r, s, v)) => {
                    fr.regs = r;
                    self.st = s;
                    if join == EXIT { return Ok(Out::Ret(v)); }
                    if join == NONE { return Ok(Out::Dead); }
                    if join == stop { return Ok(Out::Stop); }
                    b = join;
                    prev = None;
                    enter = false;
                }
            }
        }
    }
    // ------------------------------------------------------------ very long messages
    pub fn accelerate(&mut self, alg: crate::spec::Alg, h: Vec<Val>, head: Vec<Val>, msg: u64, n: u64) {
        let total = ((head.len() as u64 + n) / alg.block() as u64) as usize;
        self.accel = Some(Box::new(Accel { alg, total, at: 0, h, head, msg, keys: Map::default(), jumps: 0, busy: false, why: String::new() }));
        self.chain();
    }
    pub fn block_at(&mut self, a: &Accel, i: usize) -> Vec<Val> {
        let bs = a.alg.block();
        let hl = a.head.len();
        (i * bs..(i + 1) * bs).map(|o| if o < hl { a.head[o].clone() } else { self.lazy_get(a.msg, (o - hl) as u64, 1).remove(0) }).collect()
    }
    /// The next chaining values by the definition.
    fn chain(&mut self) {
        let mut a = self.accel.take().unwrap();
        a.keys.clear();
        let mut h = a.h.clone();
        let steps = if a.alg == crate::spec::Alg::Siphash24 { 12 } else { 6 };
        for j in a.at..=(a.at + steps).min(a.total) {
            for (w, v) in h.iter().enumerate() {
                if matches!(v, Val::I(..)) { continue; }
                for be in [false, true] {
                    let k: Vec<u32> = crate::spec::bytes_of(&mut self.d, v, be).iter().map(|x| self.enc(x)).collect();
                    a.keys.entry(k).or_insert((j, w, be));
                }
            }
            if j < a.total {
                let m = self.block_at(&a, j);
                h = crate::engines::absorb(&mut self.d, a.alg, h, &m);
            }
        }
        self.accel = Some(a);
    }
    /// Where the chaining value is: the latest one that is there as a whole.
    fn locate(&self, a: &Accel) -> Option<(usize, Vec<(u32, usize, usize, bool)>)> {
        let ws = a.alg.word() as usize / 8;
        let mut found: Vec<(usize, (u32, usize, usize, bool))> = vec![];
        for (id, m) in &self.st.mem {
            if m.ro || m.env || !m.live || m.bytes.len() < ws { continue; }
            let mut o = 0;
            while o + ws <= m.bytes.len() {
                if m.bytes[o] > 256 { if let Some((j, w, be)) = a.keys.get(&m.bytes[o..o + ws]) { found.push((*j, (*id, o, *w, *be))); o += ws; continue; } }
                o += 4;
            }
        }
        let mut js: Vec<usize> = found.iter().map(|x| x.0).collect();
        js.sort();
        js.dedup();
        for j in js.into_iter().rev() {
            let l: Vec<_> = found.iter().filter(|x| x.0 == j).map(|x| x.1).collect();
            if (0..a.alg.nwords()).all(|w| l.iter().any(|x| x.2 == w)) { let mut l = l; l.sort(); return Some((j, l)); }
        }
        None
    }
    fn header(&mut self, fr: &mut Frame, b: usize) -> R<()> {
        let a = self.accel.take().unwrap();
        if a.busy || !fr.f.heads[b] { self.accel = Some(a); return Ok(()); }
        let here = self.locate(&a);
        self.accel = Some(a);
        let Some((at, locs)) = here else { fr.visits.remove(&b); return Ok(()) };
        let v = Visit { mem: self.st.mem.clone(), regs: fr.regs.clone(), insts: self.insts, at, locs };
        let vs = fr.visits.entry(b).or_default();
        if vs.last().map_or(false, |l| l.at == at) { *vs.last_mut().unwrap() = v; return Ok(()); }
        vs.push(v);
        if vs.len() > 3 { vs.remove(0); }
        if vs.len() < 3 { return Ok(()); }
        let vs = vs.clone();
        let step = vs[2].at - vs[1].at;
        let total = self.accel.as_ref().unwrap().total;
        if vs[1].at - vs[0].at != step || vs[1].locs != vs[2].locs { return Ok(()); }
        let most = total.saturating_sub(vs[2].at + 2) / step;
        if most < 8 { return Ok(()); }
        let Some((words, regs, stale)) = self.strides(&vs) else { return Ok(()) };
        // the latest iteration that is like this one
        let (mut lo, mut hi) = (0usize, most + 1);
        let mut k = most;
        let keep = (self.st.clone(), self.events.clone(), self.evkeys.clone());
        let mut first: Vec<Vec<Entry>> = vec![];
        // the first two fix the steps; constants met for the first time are not part of the pattern
        for i in [0, 0, 1] {
            let t = self.trial(fr, b, &vs, &words, &regs, &stale, i, step)?;
            self.st = keep.0.clone();
            self.events = keep.1.clone();
            self.evkeys = keep.2.clone();
            match t { Some(t) => first.push(t), None => return Ok(()) }
        }
        while lo + 1 < hi {
            let t = self.trial(fr, b, &vs, &words, &regs, &stale, k, step)?;
            self.st = keep.0.clone();
            self.events = keep.1.clone();
            self.evkeys = keep.2.clone();
            let why = match &t { None => Some((0, "another effect".to_string())), Some(t) => steady::check(&first[1], &first[2], t, k, &words) };
            match why { None => lo = k, Some(w) => { self.accel.as_mut().unwrap().why = w.1; hi = k; } }
            k = lo + (hi - lo) / 2;
        }
        if std::env::var("CHFSA_JUMP").is_ok() { eprintln!("jump {lo} of {most}: {} ({} constants)", self.accel.as_ref().unwrap().why, first[1].len()); }
        if lo < 4 { return Ok(()); }
        let (h, r) = self.jump(&vs[2], &words, &regs, &stale, lo);
        fr.regs = r;
        fr.visits.clear();
        let a = self.accel.as_mut().unwrap();
        a.at = vs[2].at + lo * step;
        a.h = h;
        a.jumps += 1;
        self.chain();
        // the visit itself counts as the first of the new sequence
        Ok(())
    }
    /// Constants that move on by constant steps, registers likewise, and the bytes that follow no pattern.
    #[allow(clippy::type_complexity)]
    fn strides(&self, v: &[Visit]) -> Option<(Vec<(u32, usize, u64, u64)>, Vec<(usize, u32, u64, u64)>, Vec<(u32, usize)>)> {
        let (mut words, mut stale) = (vec![], vec![]);
        let ws = self.accel.as_ref().unwrap().alg.word() as usize / 8;
        for (id, c) in &v[2].mem {
            let (Some(a), Some(b)) = (v[0].mem.get(id), v[1].mem.get(id)) else { return None };
            if Rc::ptr_eq(b, c) && Rc::ptr_eq(a, b) { continue; }
            if c.live != b.live || a.bytes.len() != c.bytes.len() || b.bytes.len() != c.bytes.len() { return None; }
            let inh = |i: usize| v[2].locs.iter().any(|l| l.0 == *id && i >= l.1 && i < l.1 + ws);
            let mut i = 0;
            while i < c.bytes.len() {
                if i % 8 == 0 && i + 8 <= c.bytes.len() {
                    let num = |x: &[u32]| -> Option<u64> { let mut k = 0; for (n, b) in x.iter().enumerate() { if *b > 255 { return None; } k |= (*b as u64) << (8 * n); } Some(k) };
                    if let (Some(x), Some(y), Some(z)) = (num(&a.bytes[i..i + 8]), num(&b.bytes[i..i + 8]), num(&c.bytes[i..i + 8])) {
                        let d = z.wrapping_sub(y);
                        if y.wrapping_sub(x) == d { if d != 0 { words.push((*id, i, z, d)); } i += 8; continue; }
                        return None; // not steady yet
                    }
                }
                if !inh(i) && (c.bytes[i] != b.bytes[i] || c.bytes[i] != a.bytes[i]) { stale.push((*id, i)); }
                i += 1;
            }
        }
        let mut regs = vec![];
        for (i, c) in v[2].regs.iter().enumerate() {
            if *c == v[1].regs[i] && *c == v[0].regs[i] { continue; }
            match (&v[0].regs[i], &v[1].regs[i], c) {
                (Some(Val::I(w, x)), Some(Val::I(_, y)), Some(Val::I(_, z))) if y.wrapping_sub(*x) & mask(*w) == z.wrapping_sub(*y) & mask(*w) => regs.push((i, *w, *z, z.wrapping_sub(*y) & mask(*w))),
                _ => regs.push((i, 0, 0, 0)),
            }
        }
        Some((words, regs, stale))
    }
    /// The state `k` iterations later, with an arbitrary chaining value.
    fn jump(&mut self, v: &Visit, words: &[(u32, usize, u64, u64)], regs: &[(usize, u32, u64, u64)], stale: &[(u32, usize)], k: usize) -> (Vec<Val>, Vec<Option<Val>>) {
        let alg = self.accel.as_ref().unwrap().alg;
        let n = self.accel.as_ref().unwrap().jumps;
        let h: Vec<Val> = (0..alg.nwords()).map(|i| self.d.fresh(&format!("H{n}_{i}"), alg.word(), SECRET)).collect();
        self.st.mem = v.mem.clone();
        for (id, o, z, d) in words {
            let x = z.wrapping_add(d.wrapping_mul(k as u64));
            let a = Rc::make_mut(self.st.mem.get_mut(id).unwrap());
            for i in 0..8 { a.bytes[o + i] = (x >> (8 * i)) as u32 & 255; }
        }
        for (id, o) in stale {
            let f = self.d.fresh(&format!("earlier[{id}.{o}]"), 8, SECRET);
            let f = self.enc(&f);
            Rc::make_mut(self.st.mem.get_mut(id).unwrap()).bytes[*o] = f;
        }
        for (id, o, w, be) in &v.locs {
            let b: Vec<u32> = crate::spec::bytes_of(&mut self.d, &h[*w], *be).iter().map(|x| self.enc(x)).collect();
            Rc::make_mut(self.st.mem.get_mut(id).unwrap()).bytes[*o..*o + b.len()].copy_from_slice(&b);
        }
        let mut r = v.regs.clone();
        for (i, w, z, d) in regs {
            r[*i] = if *w == 0 { None } else { Some(Val::I(*w, z.wrapping_add(d.wrapping_mul(k as u64)) & mask(*w))) };
        }
        (h, r)
    }
    #[allow(clippy::too_many_arguments)]
    fn trial(&mut self, fr: &Frame, b: usize, vs: &[Visit], words: &[(u32, usize, u64, u64)], regs: &[(usize, u32, u64, u64)], stale: &[(u32, usize)], k: usize, step: usize) -> R<Option<Vec<Entry>>> {
        let (h, r) = self.jump(&vs[2], words, regs, stale, k);
        let mut g = Frame { fid: fr.fid, f: fr.f.clone(), regs: r, visits: Map::default() };
        let fuel = self.fuel;
        self.fuel = self.insts + 4 * (vs[2].insts - vs[1].insts) + 100_000;
        self.accel.as_mut().unwrap().busy = true;
        self.trail = Some(vec![]);
        let ids = (self.next_id, self.consts.len(), self.galloc.len());
        let (depth, nest) = (self.stack.len(), self.nest);
        let o = self.run(&mut g, b, None, b, false);
        self.nest = nest;
        self.stack.truncate(depth);
        self.accel.as_mut().unwrap().busy = false;
        self.fuel = fuel;
        let trail = self.trail.take().unwrap();
        if ids.1 == self.consts.len() && ids.2 == self.galloc.len() { self.next_id = ids.0; }
        if self.d.deadline.map_or(false, |d| std::time::Instant::now() > d) { return Err("time limit of the task".into()); }
        if !matches!(o, Ok(Out::Stop)) || self.st.pc != T { return Ok(None); }
        // it did to this chaining value what the definition does, and moved on in the same way
        let a = self.accel.take().unwrap();
        let mut want = h;
        for i in 0..step { let m = self.block_at(&a, vs[2].at + k * step + i); want = crate::engines::absorb(&mut self.d, a.alg, want, &m); }
        self.accel = Some(a);
        for (id, o, w, be) in &vs[2].locs {
            let e: Vec<u32> = crate::spec::bytes_of(&mut self.d, &want[*w], *be).iter().map(|x| self.enc(x)).collect();
            match self.st.mem.get(id) { Some(m) if m.bytes[*o..*o + e.len()] == e[..] => {} _ => return Ok(None) }
        }
        for (id, o, z, d) in words {
            let x = z.wrapping_add(d.wrapping_mul(k as u64 + 1));
            match self.st.mem.get(id) { Some(m) if (0..8).all(|i| m.bytes[o + i] == (x >> (8 * i)) as u32 & 255) => {} _ => return Ok(None) }
        }
        Ok(Some(trail))
    }
    fn join(&mut self, c: Bit, a: State, b: State) -> State {
        let pc = self.d.or(a.pc, b.pc);
        let mut mem = b.mem;
        let mut ids: Vec<u32> = a.mem.keys().copied().collect();
        ids.sort();
        for id in ids {
            let x = &a.mem[&id];
            match mem.get(&id) {
                None => { mem.insert(id, x.clone()); }
                Some(y) => {
                    if Rc::ptr_eq(x, y) { continue; }
                    let y = y.clone();
                    let mut n = (**x).clone();
                    n.live = x.live || y.live;
                    if x.live && y.live || x.live == y.live {
                        for i in 0..n.bytes.len() {
                            let (p, q) = (x.bytes[i], y.bytes[i]);
                            if p != q { n.bytes[i] = self.mux_byte(c, p, q); }
                        }
                    } else if y.live { n.bytes = y.bytes.clone(); }
                    mem.insert(id, Rc::new(n));
                }
            }
        }
        State { mem, pc }
    }

    // ------------------------------------------------------------ instructions
    fn lanes2(&mut self, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> R<Val>) -> R<Val> {
        let (n, w) = ty.lanes();
        if n == 1 && !matches!(ty, Ty::Vec(..)) { return f(self, a, b); }
        let mut out = vec![];
        for i in 0..n {
            let x = self.d.extract(a, i * w, w);
            let y = self.d.extract(b, i * w, w);
            out.push(f(self, &x, &y)?);
        }
        Ok(self.d.concat(&out))
    }
    fn bin(&mut self, op: BinOp, a: &Val, b: &Val) -> R<Val> {
        let d = &mut self.d;
        Ok(match op {
            BinOp::Add => {
                let r = d.add(a, b);
                if let Val::W(i) = r { if !self.origin.contains_key(&i) { if let Some(t) = self.repo_cheap() { self.origin.insert(i, t); } } }
                r
            }
            BinOp::Sub => d.sub(a, b),
            BinOp::Mul => d.mul(a, b),
            BinOp::And => d.vand(a, b),
            BinOp::Or => d.vor(a, b),
            BinOp::Xor => d.vxor(a, b),
            BinOp::Shl => d.shift(a, b, 0),
            BinOp::LShr => d.shift(a, b, 1),
            BinOp::AShr => d.shift(a, b, 2),
            BinOp::UDiv | BinOp::URem => {
                match d.udivrem(a, b, op == BinOp::URem) {
                    Some(v) => v,
                    None => { self.event(Ev::Ub, "division by zero".into(), self.st.pc); return Err("division by zero".into()); }
                }
            }
            BinOp::SDiv | BinOp::SRem => {
                let w = d.width(a);
                match (a, b) {
                    (Val::I(_, x), Val::I(_, y)) if *y != 0 => {
                        let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                        let r = if op == BinOp::SDiv { s(*x).wrapping_div(s(*y)) } else { s(*x).wrapping_rem(s(*y)) };
                        Val::I(w, r as u64 & mask(w))
                    }
                    _ => {
                        // non-negative operands
                        let (sa, sb) = (d.bit(a, w - 1), d.bit(b, w - 1));
                        if sa == F && sb == F {
                            return match d.udivrem(a, b, op == BinOp::SRem) { Some(v) => Ok(v), None => Err("division by zero".into()) };
                        }
                        d.opaque2("sdiv", if op == BinOp::SDiv { 23 } else { 24 }, a, b, w)
                    }
                }
            }
        })
    }
    /// Nearest frame belonging to the crate (for diagnostics only).
    fn repo_cheap(&self) -> Option<(usize, u32)> {
        self.stack.iter().rev().find(|s| { let k = &self.p.modules[self.p.funcs[s.0].module].krate; k == "chf" || k == "harness" }).copied()
    }
    fn icmp(&mut self, p: Pred, a: &Val, b: &Val) -> Bit {
        let d = &mut self.d;
        match p {
            Pred::Eq => d.eq(a, b),
            Pred::Ne => { let x = d.eq(a, b); d.not(x) }
            Pred::Ult => d.ult(a, b),
            Pred::Ugt => d.ult(b, a),
            Pred::Uge => { let x = d.ult(a, b); d.not(x) }
            Pred::Ule => { let x = d.ult(b, a); d.not(x) }
            Pred::Slt => d.slt(a, b),
            Pred::Sgt => d.slt(b, a),
            Pred::Sge => { let x = d.slt(a, b); d.not(x) }
            Pred::Sle => { let x = d.slt(b, a); d.not(x) }
        }
    }
    fn record(&mut self, site: usize, rule: Rule, vs: &[&Val]) {
        fn flat(v: &Val, o: &mut Vec<steady::C>) {
            match v { Val::I(w, k) => o.push(Some((*w, *k))), Val::W(_) => o.push(None), Val::Agg(a) => for x in a.iter() { flat(x, o) } }
        }
        let mut o = Vec::with_capacity(3);
        for v in vs { flat(v, &mut o); }
        if let Some(t) = &mut self.trail { t.push(Entry { site, rule, v: o }); }
    }
    /// Records the constants of an instruction that has just been analysed.
    fn note(&mut self, fr: &Frame, ins: &Inst) -> R<()> {
        let site = ins as *const Inst as usize;
        let z = Val::Agg(Rc::new(vec![]));
        let r = ins.dst.and_then(|d| fr.regs[d as usize].clone()).unwrap_or(z);
        let vec = |t: &Ty| matches!(t, Ty::Vec(..));
        match &ins.op {
            Op::Alloca { .. } | Op::Fence => {}
            Op::Load { ty, ptr, .. } => {
                let p = self.op(fr, ptr)?;
                let lazy = match &p { Val::I(_, k) => self.is_lazy(*k), _ => false };
                self.record(site, Rule::Load(ty.store_size(), lazy), &[&p, &r]);
            }
            Op::Store { ty, val, ptr, .. } => { let (v, p) = (self.op(fr, val)?, self.op(fr, ptr)?); self.record(site, Rule::Store(ty.store_size()), &[&p, &v]); }
            Op::Gep { base, terms, .. } => {
                let mut l = vec![self.op(fr, base)?];
                let mut rule = Rule::Lin;
                for (o, w, _) in terms { l.push(self.op(fr, o)?); if *w < 64 { rule = Rule::Fixed; } }
                l.push(r);
                let l: Vec<&Val> = l.iter().collect();
                self.record(site, rule, &l);
            }
            Op::Bin { op, ty, a, b, .. } => { let (x, y) = (self.op(fr, a)?, self.op(fr, b)?); self.record(site, steady::bin_rule(*op, vec(ty)), &[&x, &y, &r]); }
            Op::Icmp { pred, ty, a, b } => { let (x, y) = (self.op(fr, a)?, self.op(fr, b)?); self.record(site, steady::icmp_rule(*pred, vec(ty)), &[&x, &y, &r]); }
            Op::Select { cty, c, a, b, .. } => { let (c, x, y) = (self.op(fr, c)?, self.op(fr, a)?, self.op(fr, b)?); self.record(site, if vec(cty) { Rule::Fixed } else { Rule::Sel }, &[&c, &x, &y, &r]); }
            Op::Cast { op, from, a, .. } => {
                let x = self.op(fr, a)?;
                let rule = match op { CastOp::Bit => Rule::Copy, CastOp::SExt => Rule::Fixed, _ if vec(from) => Rule::Fixed, _ => Rule::Lin };
                self.record(site, rule, &[&x, &r]);
            }
            Op::ExtractValue { .. } | Op::InsertValue { .. } | Op::Freeze { .. } => self.record(site, Rule::Copy, &[&r]),
            Op::ExtractElement { a, i, .. } => { let (x, y) = (self.op(fr, a)?, self.op(fr, i)?); self.record(site, Rule::Fixed, &[&x, &y, &r]); }
            Op::InsertElement { a, v, i, .. } => { let (x, y, k) = (self.op(fr, a)?, self.op(fr, v)?, self.op(fr, i)?); self.record(site, Rule::Fixed, &[&x, &y, &k, &r]); }
            Op::Shuffle { a, b, .. } => { let (x, y) = (self.op(fr, a)?, self.op(fr, b)?); self.record(site, Rule::Fixed, &[&x, &y, &r]); }
            Op::AtomicRmw { ptr, v, .. } => { let (x, y) = (self.op(fr, ptr)?, self.op(fr, v)?); self.record(site, Rule::Fixed, &[&x, &y, &r]); }
            Op::CmpXchg { ptr, cmp, new, .. } => { let (x, y, n) = (self.op(fr, ptr)?, self.op(fr, cmp)?, self.op(fr, new)?); self.record(site, Rule::Fixed, &[&x, &y, &n, &r]); }
            Op::Unsupported(_) => {}
            Op::Call { callee, args, .. } => {
                let mut l = vec![];
                for (_, o) in args { l.push(self.op(fr, o)?); }
                let rule = match callee {
                    Callee::Sym(n, 0) if n.starts_with("llvm.") => match steady::intrinsic_rule(n) {
                        None => return Ok(()),
                        Some(_) if args.iter().any(|a| vec(&a.0)) => Rule::Fixed,
                        Some(x) => x,
                    },
                    Callee::Sym(n, 0) => match special_of(n, "") { Special::Memcpy | Special::Memmove => Rule::Mem, Special::Memset => Rule::Set, _ => Rule::Fixed },
                    Callee::Sym(_, id) => match self.special[*id - 1] {
                        Special::Memcpy | Special::Memmove => Rule::Mem,
                        Special::Memset => Rule::Set,
                        Special::None => return Ok(()),
                        _ => Rule::Fixed,
                    },
                    Callee::Reg(c) => { l = vec![fr.regs[*c as usize].clone().ok_or("callee register")?]; Rule::Fixed }
                    _ => Rule::Fixed,
                };
                if !matches!(callee, Callee::Reg(_)) { l.push(r); }
                let l: Vec<&Val> = l.iter().collect();
                self.record(site, rule, &l);
            }
        }
        Ok(())
    }
    fn is_lazy(&self, k: u64) -> bool { self.st.mem.get(&((k >> 32) as u32)).or_else(|| self.consts.get(&((k >> 32) as u32))).map_or(false, |a| a.lazy != 0) }
    /// False: the path ends here.
    fn inst(&mut self, fr: &mut Frame, ins: &Inst) -> R<bool> {
        let v = match &ins.op {
            Op::Alloca { size, align } => {
                let id = self.new_id();
                let base = ((id as u64) << 32) + align;
                self.st.mem.insert(id, Rc::new(Alloc { bytes: vec![256; *size as usize], base, live: true, ro: false, env: false, heap: false, lazy: 0, name: "local".into() }));
                Val::I(64, base)
            }
            Op::Load { ty, ptr, align, noundef, .. } => {
                let p = self.op(fr, ptr)?;
                match self.load(ty, &p, *align, *noundef)? { Some(v) => v, None => return Ok(false) }
            }
            Op::Store { ty, val, ptr, align, .. } => {
                let v = self.op(fr, val)?;
                let p = self.op(fr, ptr)?;
                return self.store(ty, &v, &p, *align);
            }
            Op::Gep { base, off, terms, inb } => {
                let b = self.op(fr, base)?;
                let mut r = if *off != 0 { self.d.add(&b, &Val::I(64, *off as u64)) } else { b.clone() };
                for (o, w, sc) in terms {
                    let i = self.op(fr, o)?;
                    let i = if *w < 64 { self.d.sext(&i, 64) } else { i };
                    let t = self.d.mul(&i, &Val::I(64, *sc));
                    // address arithmetic on few index values stays enumerable
                    r = self.ptr_add(&r, &t)?;
                }
                if *inb { if let (Val::I(_, x), Val::I(_, y)) = (&b, &r) { if x != y && !self.in_bounds(*x, *y) {
                    self.event(Ev::Ub, "pointer arithmetic leaves the allocation".into(), self.st.pc);
                } } }
                r
            }
            Op::Bin { op, ty, a, b, nuw, nsw } => {
                let x = self.op(fr, a)?;
                let y = self.op(fr, b)?;
                if let (Val::I(w, p), Val::I(_, q)) = (&x, &y) {
                    if *nuw {
                        let bad = match op {
                            BinOp::Add => (*p as u128 + *q as u128) > mask(*w) as u128,
                            BinOp::Sub => p < q,
                            BinOp::Mul => (*p as u128 * *q as u128) > mask(*w) as u128,
                            _ => false,
                        };
                        if bad { self.event(Ev::Ub, format!("unchecked arithmetic overflows ({op:?})"), self.st.pc); return Ok(false); }
                    }
                    let _ = nsw;
                } else if *nuw && matches!(op, BinOp::Add | BinOp::Sub) && !matches!(ty, Ty::Vec(..)) {
                    let o = if *op == BinOp::Sub { self.d.ult(&x, &y) } else { let n = self.d.vnot(&x); self.d.ult(&n, &y) };
                    if !Dom::is_undef(o) {
                        let q = self.d.and(self.st.pc, o);
                        if q != F { self.event(Ev::Ub, format!("unchecked arithmetic may overflow ({op:?})"), q); }
                    }
                }
                let op = *op;
                self.lanes2(ty, &x, &y, &mut |s, x, y| s.bin(op, x, y))?
            }
            Op::Icmp { pred, ty, a, b } => {
                let x = self.op(fr, a)?;
                let y = self.op(fr, b)?;
                let pred = *pred;
                self.lanes2(ty, &x, &y, &mut |s, x, y| { let b = s.icmp(pred, x, y); Ok(s.d.word(&[b])) })?
            }
            Op::Select { cty, ty, c, a, b } => {
                let cv = self.op(fr, c)?;
                let x = self.op(fr, a)?;
                let y = self.op(fr, b)?;
                if let Ty::Vec(n, _) = cty {
                    let (_, w) = ty.lanes();
                    let mut out = vec![];
                    for i in 0..*n {
                        let cb = self.d.bit(&cv, i);
                        let p = self.d.extract(&x, i * w, w);
                        let q = self.d.extract(&y, i * w, w);
                        out.push(self.d.select(cb, &p, &q));
                    }
                    self.d.concat(&out)
                } else {
                    let cb = self.d.bit(&cv, 0);
                    if Dom::is_undef(cb) { self.undef_of(ty) } else { self.d.select(cb, &x, &y) }
                }
            }
            Op::Cast { op, from, to, a } => {
                let x = self.op(fr, a)?;
                match op {
                    CastOp::Bit => if matches!(x, Val::Agg(_)) { x } else { x },
                    _ => {
                        let (n, w) = from.lanes();
                        let (_, w2) = to.lanes();
                        let mut out = vec![];
                        for i in 0..n {
                            let e = if n == 1 { x.clone() } else { self.d.extract(&x, i * w, w) };
                            out.push(match op { CastOp::Trunc => self.d.trunc(&e, w2), CastOp::ZExt => self.d.zext(&e, w2), _ => self.d.sext(&e, w2) });
                        }
                        self.d.concat(&out)
                    }
                }
            }
            Op::ExtractValue { a, idx, .. } => {
                let mut x = self.op(fr, a)?;
                for i in idx { x = match &x { Val::Agg(v) => v[*i].clone(), _ => return Err("extractvalue".into()) }; }
                x
            }
            Op::InsertValue { a, v, idx, .. } => {
                let x = self.op(fr, a)?;
                let n = self.op(fr, v)?;
                fn ins(x: &Val, idx: &[usize], n: Val) -> R<Val> {
                    if idx.is_empty() { return Ok(n); }
                    match x {
                        Val::Agg(v) => { let mut w = (**v).clone(); w[idx[0]] = ins(&v[idx[0]], &idx[1..], n)?; Ok(Val::Agg(Rc::new(w))) }
                        _ => Err("insertvalue".into()),
                    }
                }
                ins(&x, idx, n)?
            }
            Op::ExtractElement { ty, a, i } => {
                let x = self.op(fr, a)?;
                let k = self.op(fr, i)?;
                let (n, w) = ty.lanes();
                match k { Val::I(_, k) if k < n as u64 => self.d.extract(&x, k as u32 * w, w), _ => return Err("extractelement index".into()) }
            }
            Op::InsertElement { ty, a, v, i } => {
                let x = self.op(fr, a)?;
                let nv = self.op(fr, v)?;
                let k = self.op(fr, i)?;
                let (n, w) = ty.lanes();
                let Val::I(_, k) = k else { return Err("insertelement index".into()) };
                let out: Vec<Val> = (0..n).map(|j| if j as u64 == k { nv.clone() } else { self.d.extract(&x, j * w, w) }).collect();
                self.d.concat(&out)
            }
            Op::Shuffle { ty, a, b, mask } => {
                let x = self.op(fr, a)?;
                let y = self.op(fr, b)?;
                let (n, w) = ty.lanes();
                let mut out = vec![];
                for m in mask {
                    out.push(if *m < 0 { self.d.undef(w) } else if (*m as u32) < n { self.d.extract(&x, *m as u32 * w, w) } else { self.d.extract(&y, (*m as u32 - n) * w, w) });
                }
                self.d.concat(&out)
            }
            Op::Freeze { a, .. } => self.op(fr, a)?,
            Op::Fence => return Ok(true),
            // one thread: an atomic update is a load followed by a store
            Op::AtomicRmw { kind, ptr, ty, v } => {
                let p = self.op(fr, ptr)?;
                let n = self.op(fr, v)?;
                let al = ty.store_size();
                let Some(o) = self.load(ty, &p, al, false)? else { return Ok(false) };
                let d = &mut self.d;
                let new = match kind.as_str() {
                    "xchg" => n,
                    "add" => d.add(&o, &n),
                    "sub" => d.sub(&o, &n),
                    "and" => d.vand(&o, &n),
                    "or" => d.vor(&o, &n),
                    "xor" => d.vxor(&o, &n),
                    "umax" => { let c = d.ult(&o, &n); d.select(c, &n, &o) }
                    "umin" => { let c = d.ult(&o, &n); d.select(c, &o, &n) }
                    k => return Err(format!("atomic update {k}")),
                };
                if !self.store(ty, &new, &p, al)? { return Ok(false); }
                o
            }
            Op::CmpXchg { ptr, ty, cmp, new } => {
                let p = self.op(fr, ptr)?;
                let (c, n) = (self.op(fr, cmp)?, self.op(fr, new)?);
                let al = ty.store_size();
                let Some(o) = self.load(ty, &p, al, false)? else { return Ok(false) };
                let e = self.d.eq(&o, &c);
                let w = self.d.select(e, &n, &o);
                if !self.store(ty, &w, &p, al)? { return Ok(false); }
                let ev = self.d.word(&[e]);
                Val::Agg(Rc::new(vec![o, ev]))
            }
            Op::Unsupported(s) => return Err(format!("unsupported instruction {s}")),
            Op::Call { callee, args, ret } => {
                match self.call(fr, callee, args, ret)? {
                    None => return Ok(false),
                    Some(Some(v)) => v,
                    Some(None) => return Ok(true),
                }
            }
        };
        if let Some(d) = ins.dst { fr.regs[d as usize] = Some(v); }
        Ok(true)
    }
    fn in_bounds(&self, x: u64, y: u64) -> bool {
        let id = (x >> 32) as u32;
        match self.st.mem.get(&id).or_else(|| self.consts.get(&id)) {
            Some(a) => y >= a.base && y <= a.base + a.size(),
            None => true, // decided when it is accessed
        }
    }
    fn ptr_add(&mut self, p: &Val, t: &Val) -> R<Val> {
        if let (Val::I(..), Val::I(..)) = (p, t) { return Ok(self.d.add(p, t)); }
        let pc = self.st.pc;
        // keep addresses as a choice between constants
        let pl = self.d.enumerate(p, pc, 64);
        let tl = self.d.enumerate(t, pc, 1024);
        if let (Some(pl), Some(tl)) = (pl, tl) {
            if pl.len() * tl.len() <= 4096 {
                let mut acc: Option<Val> = None;
                for (c1, x) in &pl { for (c2, y) in &tl {
                    let c = self.d.and(*c1, *c2);
                    if self.d.and(c, pc) == F { continue; }
                    let v = Val::I(64, x.wrapping_add(*y));
                    acc = Some(match acc { None => v, Some(a) => self.d.select(c, &v, &a) });
                } }
                if let Some(a) = acc { return Ok(a); }
            }
        }
        Ok(self.d.add(p, t))
    }
    /// None: does not return. Some(v): returns v.
    fn call(&mut self, fr: &mut Frame, callee: &Callee, args: &[(Ty, Opd)], ret: &Ty) -> R<Option<Option<Val>>> {
        let mut av = Vec::with_capacity(args.len());
        for (_, o) in args { av.push(self.op(fr, o)?); }
        match callee {
            Callee::Sym(n, id) => {
                if *id > 0 { return self.call_id(*id - 1, av); }
                if n.starts_with("llvm.") { return self.intrinsic(n, args, av, ret); }
                let sp = special_of(n, "");
                if sp != Special::None { return self.special(sp, &av, n); }
                let m = self.p.funcs[fr.fid].module;
                if self.p.modules[m].decl_noreturn.get(n).copied().unwrap_or(false) {
                    self.event(Ev::Panic, n.clone(), self.st.pc);
                    return Ok(None);
                }
                self.event(Ev::Extern, format!("calls external function {n}"), self.st.pc);
                Err(format!("external function {n}"))
            }
            Callee::Reg(r) => {
                let p = fr.regs[*r as usize].clone().ok_or("callee register")?;
                let pc = self.st.pc;
                let l = self.d.enumerate(&p, pc, 16).ok_or("unresolved indirect call")?;
                let mut todo: Vec<(Bit, Bit, usize)> = vec![];
                for (c, k) in l {
                    let q = self.d.and(pc, c);
                    if q == F { continue; }
                    if k >> 62 != 1 || ((k >> 4) & 0xfff_ffff) as usize >= self.p.funcs.len() {
                        return Err("indirect call to unknown target".into());
                    }
                    todo.push((c, q, ((k >> 4) & 0xfff_ffff) as usize));
                }
                if todo.len() == 1 { return self.call_id(todo[0].2, av); }
                if self.d.vtaint(&p) & SECRET != 0 { self.event(Ev::SecretBranch, "indirect call target depends on secret data".into(), pc); }
                let base = self.st.clone();
                let mut acc: Option<(State, Option<Val>)> = None;
                for (c, q, f) in todo {
                    self.st = base.clone();
                    self.st.pc = q;
                    if let Some(rv) = self.call_id(f, av.clone())? {
                        let st = self.st.clone();
                        acc = Some(match acc {
                            None => (st, rv),
                            Some((s0, v0)) => {
                                let s = self.join(c, st, s0);
                                let v = match (rv, v0) { (Some(x), Some(y)) => Some(self.d.select(c, &x, &y)), (x, _) => x };
                                (s, v)
                            }
                        });
                    }
                }
                match acc { None => Ok(None), Some((s, v)) => { self.st = s; Ok(Some(v)) } }
            }
            Callee::Asm(s) => {
                // an empty template is an optimisation barrier
                let body = s.split('|').next().unwrap_or("");
                if body.trim().is_empty() { return Ok(Some(if *ret == Ty::Void { None } else { av.first().cloned() })); }
                self.event(Ev::Extern, format!("inline assembly `{body}`"), self.st.pc);
                Err("inline assembly".into())
            }
            Callee::Bad(s) => Err(format!("callee {s}")),
        }
    }
    fn call_id(&mut self, id: usize, av: Vec<Val>) -> R<Option<Option<Val>>> {
        let p = self.p.clone();
        let fe = &p.funcs[id];
        let sp = self.special[id];
        if sp != Special::None { return self.special(sp, &av, &fe.name); }
        if fe.noreturn {
            self.event(Ev::Panic, fe.pretty.clone(), self.st.pc);
            return Ok(None);
        }
        if self.check_gates { self.gate(id); }
        if let Some(s) = self.summ.get(&id).cloned() { if self.apply(&s, &av) { self.summ_used += 1; return Ok(Some(None)); } }
        if let Some(o) = self.watch {
            if self.stack.len() < 16 && av.iter().any(|a| matches!(a, Val::I(64, k) if (k >> 32) as u32 == o)) {
                let (base, n) = self.st.mem.get(&o).map_or((0, 0), |a| (a.base, a.bytes.len()));
                let pre = self.get_raw(base, n);
                let at = self.watched.len();
                self.watched.push((id, av.clone(), pre, vec![]));
                let r = self.call_fn(id, &av)?;
                if let Some(None) = r { if let Some(post) = self.try_bytes(base, n) { self.watched[at].3 = post; } }
                return Ok(r);
            }
        }
        self.call_fn(id, &av)
    }
    fn apply(&mut self, s: &Summ, av: &[Val]) -> bool {
        let Some(Val::I(64, p)) = av.get(s.harg) else { return false };
        if !self.st.mem.get(&((p >> 32) as u32)).map_or(false, |a| a.live && !a.ro && !a.env) { return false; }
        let ws = s.alg.word() as usize / 8;
        let mut h = vec![];
        for o in &s.h {
            let Some(b) = self.try_bytes(p.wrapping_add(*o as u64), ws) else { return false };
            if b.contains(&256) { return false; }
            let v: Vec<Val> = b.into_iter().map(|x| self.dec(x)).collect();
            h.push(crate::spec::word_of(&mut self.d, &v, s.be));
        }
        let mut blk = vec![];
        if let Some((a, o)) = s.block {
            let Some(Val::I(64, q)) = av.get(a) else { return false };
            let Some(b) = self.try_bytes(q.wrapping_add(o as u64), s.alg.block()) else { return false };
            if b.contains(&256) { return false; }
            blk = b.into_iter().map(|x| self.dec(x)).collect();
        }
        let h2 = if self.d.coarse {
            let mut t = 0;
            for v in h.iter().chain(&blk) { t |= self.d.vtaint(v); }
            (0..h.len()).map(|_| self.d.fresh("h", s.alg.word(), t)).collect()
        } else if s.block.is_none() { crate::spec::sip_rounds2(&mut self.d, &mut h); h }
        else { crate::spec::compress(&mut self.d, s.alg, &h, &blk, &mut None) };
        for (i, o) in s.h.iter().enumerate() {
            let b = crate::spec::bytes_of(&mut self.d, &h2[i], s.be);
            self.put(p.wrapping_add(*o as u64), &b);
        }
        true
    }
    fn gate(&mut self, id: usize) {
        let p = self.p.clone();
        let fe = &p.funcs[id];
        if fe.features.is_empty() { return; }
        // features already required by the caller need no new check
        let caller: &[String] = self.stack.last().map_or(&[], |s| &p.funcs[s.0].features);
        for f in &fe.features {
            if BASELINE.contains(&f.as_str()) || caller.contains(f) { continue; }
            let mut have = F;
            if let Some(tests) = self.gates.get(f) {
                for t in tests.clone() { if let Some(b) = self.cpu.get(&t) { have = self.d.or(have, *b); } }
            }
            let nh = self.d.not(have);
            let q = self.d.and(self.st.pc, nh);
            if q != F { self.event(Ev::Gate, format!("calls `{}`, which needs CPU feature `{f}`, where it has not been detected", fe.pretty), q); }
        }
    }
    fn special(&mut self, sp: Special, a: &[Val], name: &str) -> R<Option<Option<Val>>> {
        match sp {
            Special::CpuTest => {
                let Some(Val::I(_, k)) = a.first() else { return Err("cpu feature index".into()) };
                let k = *k;
                let b = match self.cpu.get(&k) {
                    Some(b) => *b,
                    None => { let b = self.d.fresh_bit(&format!("cpu{k}"), 0, CPU); self.cpu.insert(k, b); b }
                };
                Ok(Some(Some(self.d.word(&[b]))))
            }
            Special::RAlloc | Special::RAllocZ => {
                self.event(Ev::Alloc, "allocates".into(), self.st.pc);
                let Val::I(_, n) = a[0] else { return Err("allocation of unknown size".into()) };
                if n > 1 << 24 { return Err("huge allocation".into()); }
                let al = match a.get(1) { Some(Val::I(_, k)) => *k, _ => 16 };
                let p = self.alloc(n as usize, al, "heap");
                let id = (p >> 32) as u32;
                let x = Rc::make_mut(self.st.mem.get_mut(&id).unwrap());
                x.heap = true;
                if sp == Special::RAllocZ { for b in &mut x.bytes { *b = 0; } }
                Ok(Some(Some(Val::I(64, p))))
            }
            Special::RDealloc => {
                if let Val::I(_, p) = a[0] {
                    let id = (p >> 32) as u32;
                    match self.st.mem.get_mut(&id) {
                        Some(x) if x.live && x.heap => { Rc::make_mut(x).live = false; }
                        _ => self.event(Ev::Ub, "invalid deallocation".into(), self.st.pc),
                    }
                }
                Ok(Some(None))
            }
            Special::RRealloc => {
                self.event(Ev::Alloc, "reallocates".into(), self.st.pc);
                let (Val::I(_, p), Val::I(_, n)) = (&a[0], &a[3]) else { return Err("reallocation of unknown size".into()) };
                let al = match a.get(2) { Some(Val::I(_, k)) => *k, _ => 16 };
                let q = self.alloc(*n as usize, al, "heap");
                let id = (*p >> 32) as u32;
                let old = self.st.mem.get(&id).ok_or("realloc of unknown block")?.bytes.clone();
                Rc::make_mut(self.st.mem.get_mut(&id).unwrap()).live = false;
                let x = Rc::make_mut(self.st.mem.get_mut(&((q >> 32) as u32)).unwrap());
                x.heap = true;
                let m = old.len().min(x.bytes.len());
                x.bytes[..m].copy_from_slice(&old[..m]);
                Ok(Some(Some(Val::I(64, q))))
            }
            Special::Nop => Ok(Some(None)),
            Special::Memcpy | Special::Memmove => {
                let ok = self.memcpy(&a[0], &a[1], &a[2], sp == Special::Memmove)?;
                Ok(if ok { Some(Some(a[0].clone())) } else { None })
            }
            Special::Memset => {
                let v = self.d.trunc(&a[1], 8);
                let ok = self.memset(&a[0], &v, &a[2])?;
                Ok(if ok { Some(Some(a[0].clone())) } else { None })
            }
            Special::Memcmp => Ok(self.memcmp(&a[0], &a[1], &a[2])?.map(Some)),
            Special::None => { let _ = name; unreachable!() }
        }
    }
    fn intrinsic(&mut self, n: &str, args: &[(Ty, Opd)], a: Vec<Val>, ret: &Ty) -> R<Option<Option<Val>>> {
        let n = &n[5..];
        let base = |s: &str| n == s || (n.starts_with(s) && n.as_bytes()[s.len()] == b'.');
        let some = |v: Val| Ok(Some(Some(v)));
        if base("lifetime.start") || base("lifetime.end") || base("experimental.noalias.scope.decl") || n.starts_with("dbg.") || base("invariant.start") || base("prefetch") { return Ok(Some(None)); }
        if base("memcpy") || base("memmove") || base("memcpy.inline") {
            let ok = self.memcpy(&a[0], &a[1], &a[2], n.starts_with("memmove"))?;
            return Ok(if ok { Some(None) } else { None });
        }
        if base("memset") {
            let ok = self.memset(&a[0], &a[1], &a[2])?;
            return Ok(if ok { Some(None) } else { None });
        }
        if n == "assume" {
            let c = self.d.bit(&a[0], 0);
            if Dom::is_undef(c) { return Ok(Some(None)); }
            let nc = self.d.not(c);
            let q = self.d.and(self.st.pc, nc);
            if q != F {
                self.event(Ev::Ub, "assumption stated to the compiler can be false".into(), q);
                self.st.pc = self.d.and(self.st.pc, c);
                if self.st.pc == F { return Ok(None); }
            }
            return Ok(Some(None));
        }
        if base("expect") { return some(a[0].clone()); }
        if base("threadlocal.address") {
            self.event(Ev::GlobalRead, "uses a thread-local variable".into(), self.st.pc);
            return some(a[0].clone());
        }
        if n == "trap" || n == "ubsantrap" || n == "debugtrap" {
            self.event(Ev::Panic, "trap".into(), self.st.pc);
            return Ok(None);
        }
        if base("is.constant") { return some(Val::I(1, 0)); }
        if n.starts_with("x86.") { let v = self.x86(n, &a)?; return some(v); }
        let ty = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let w = ty.lanes().1;
        // element-wise binary operations
        let bin2: Option<fn(&mut Interp, &Val, &Val) -> R<Val>> = if base("umin") { Some(|s, x, y| { let c = s.d.ult(x, y); s.sel(c, x, y) }) }
            else if base("umax") { Some(|s, x, y| { let c = s.d.ult(y, x); s.sel(c, x, y) }) }
            else if base("smin") { Some(|s, x, y| { let c = s.d.slt(x, y); s.sel(c, x, y) }) }
            else if base("smax") { Some(|s, x, y| { let c = s.d.slt(y, x); s.sel(c, x, y) }) }
            else if base("uadd.sat") { Some(|s, x, y| { let o = s.uadd_ovf(x, y); let r = s.d.add(x, y); let w = s.d.width(x); let m = s.d.konst(w, !0 & mask(w) as u128); s.sel(o, &m, &r) }) }
            else if base("usub.sat") { Some(|s, x, y| { let o = s.d.ult(x, y); let r = s.d.sub(x, y); let w = s.d.width(x); let m = s.d.konst(w, 0); s.sel(o, &m, &r) }) }
            else { None };
        if let Some(f) = bin2 { let v = self.lanes2(&ty, &a[0], &a[1], &mut |s, x, y| f(s, x, y))?; return some(v); }
        if base("ucmp") || base("scmp") {
            let rw = ret.bits();
            let (l, g) = if base("ucmp") { (self.d.ult(&a[0], &a[1]), self.d.ult(&a[1], &a[0])) } else { (self.d.slt(&a[0], &a[1]), self.d.slt(&a[1], &a[0])) };
            let m1 = self.d.konst(rw, mask(rw) as u128);
            let one = self.d.konst(rw, 1);
            let z = self.d.konst(rw, 0);
            let v = self.sel(g, &one, &z)?;
            let v = self.sel(l, &m1, &v)?;
            return some(v);
        }
        for (nm, k) in [("uadd.with.overflow", 0), ("usub.with.overflow", 1), ("umul.with.overflow", 2), ("sadd.with.overflow", 3), ("ssub.with.overflow", 4), ("smul.with.overflow", 5)] {
            if !base(nm) { continue; }
            let (x, y) = (&a[0], &a[1]);
            let (r, o) = match k {
                0 => (self.bin(BinOp::Add, x, y)?, self.uadd_ovf(x, y)),
                1 => (self.d.sub(x, y), self.d.ult(x, y)),
                2 => {
                    let r = self.d.mul(x, y);
                    let o = match (self.d.as_const(x), self.d.as_const(y)) {
                        (Some(p), Some(q)) => p.checked_mul(q).map_or(true, |v| w < 128 && v >> w != 0) as Bit,
                        (_, Some(0)) | (Some(0), _) => F,
                        (_, Some(q)) => { let m = self.d.konst(w, (mask(w) as u128) / q); self.d.ult(&m, x) }
                        (Some(q), _) => { let m = self.d.konst(w, (mask(w) as u128) / q); self.d.ult(&m, y) }
                        _ => {
                            if w <= 64 {
                                let (p, q) = (self.d.zext(x, 2 * w), self.d.zext(y, 2 * w));
                                let t = self.d.mul(&p, &q);
                                let hi = self.d.extract(&t, w, w);
                                let z = self.d.konst(w, 0);
                                let e = self.d.eq(&hi, &z);
                                self.d.not(e)
                            } else { return Err("wide multiplication".into()) }
                        }
                    };
                    (r, o)
                }
                3 | 4 => {
                    let r = if k == 3 { self.d.add(x, y) } else { self.d.sub(x, y) };
                    let (sx, sy, sr) = (self.d.bit(x, w - 1), self.d.bit(y, w - 1), self.d.bit(&r, w - 1));
                    let sy = if k == 4 { self.d.not(sy) } else { sy };
                    let p = self.d.xor(sx, sr);
                    let q = self.d.xor(sy, sr);
                    (r.clone(), self.d.and(p, q))
                }
                _ => match (x, y) {
                    (Val::I(_, p), Val::I(_, q)) => {
                        let s = |v: u64| (((v << (64 - w)) as i64) >> (64 - w)) as i128;
                        let t = s(*p) * s(*q);
                        let tr = Val::I(w, t as u64 & mask(w));
                        let back = s(t as u64 & mask(w));
                        (tr, (back != t) as Bit)
                    }
                    _ => return Err("signed multiplication".into()),
                },
            };
            let ob = self.d.word(&[o]);
            return some(Val::Agg(Rc::new(vec![r, ob])));
        }
        if base("bswap") {
            let v = if matches!(ty, Ty::Vec(..)) {
                let (k, w) = ty.lanes();
                let o: Vec<Val> = (0..k).map(|i| { let e = self.d.extract(&a[0], i * w, w); self.d.bswap(&e) }).collect();
                self.d.concat(&o)
            } else { self.d.bswap(&a[0]) };
            return some(v);
        }
        if base("bitreverse") {
            let mut b = self.d.bits(&a[0]).to_vec();
            b.reverse();
            let v = self.d.word(&b);
            return some(v);
        }
        if base("fshl") || base("fshr") {
            let left = base("fshl");
            let (k, w) = ty.lanes();
            let mut out = vec![];
            for i in 0..k {
                let (x, y, s) = if k == 1 { (a[0].clone(), a[1].clone(), a[2].clone()) } else { (self.d.extract(&a[0], i * w, w), self.d.extract(&a[1], i * w, w), self.d.extract(&a[2], i * w, w)) };
                let one = |me: &mut Interp, s: u64| -> Val {
                    let s = (s % w as u64) as u32;
                    if x == y { return if left { me.d.rotl_k(&x, s) } else { me.d.rotr_k(&x, s) }; }
                    let c = me.d.concat(&[y.clone(), x.clone()]); // x high
                    if left { me.d.extract(&c, w - s, w) } else { me.d.extract(&c, s, w) }
                };
                out.push(match s {
                    Val::I(_, s) => one(self, s),
                    _ => {
                        let pc = self.st.pc;
                        let l = self.d.enumerate(&s, pc, 256).ok_or("variable rotate")?;
                        let mut acc: Option<Val> = None;
                        for (c, s) in l { let v = one(self, s); acc = Some(match acc { None => v, Some(p) => self.d.select(c, &v, &p) }); }
                        acc.ok_or("variable rotate")?
                    }
                });
            }
            let v = self.d.concat(&out);
            return some(v);
        }
        if base("ctpop") || base("ctlz") || base("cttz") {
            let b = self.d.bits(&a[0]);
            let mut v: Val = self.d.konst(w, 0);
            if base("ctpop") {
                if let Val::I(_, k) = a[0] { return some(Val::I(w, k.count_ones() as u64)); }
                for x in b.iter() { let e = self.d.word(&[*x]); let e = self.d.zext(&e, w); v = self.d.add(&v, &e); }
                return some(v);
            }
            let lead = base("ctlz");
            v = self.d.konst(w, w as u128);
            for i in 0..w {
                // later assignments have priority: scan from the far end
                let pos = if lead { i } else { w - 1 - i };
                let cnt = if lead { w - 1 - pos } else { pos };
                let k = self.d.konst(w, cnt as u128);
                v = self.sel(b[pos as usize], &k, &v)?;
            }
            return some(v);
        }
        if base("abs") {
            let s = self.d.bit(&a[0], w - 1);
            let z = self.d.konst(w, 0);
            let ng = self.d.sub(&z, &a[0]);
            let v = self.sel(s, &ng, &a[0])?;
            return some(v);
        }
        if base("vector.reduce.or") || base("vector.reduce.and") || base("vector.reduce.xor") || base("vector.reduce.add") {
            let (k, w) = ty.lanes();
            let mut acc = self.d.extract(&a[0], 0, w);
            for i in 1..k {
                let e = self.d.extract(&a[0], i * w, w);
                acc = if base("vector.reduce.or") { self.d.vor(&acc, &e) } else if base("vector.reduce.and") { self.d.vand(&acc, &e) } else if base("vector.reduce.xor") { self.d.vxor(&acc, &e) } else { self.d.add(&acc, &e) };
            }
            return some(acc);
        }
        Err(format!("intrinsic llvm.{n}"))
    }
    fn sel(&mut self, c: Bit, a: &Val, b: &Val) -> R<Val> {
        if Dom::is_undef(c) { let w = self.d.width(a); return Ok(self.d.undef(w)); }
        Ok(self.d.select(c, a, b))
    }
    fn uadd_ovf(&mut self, x: &Val, y: &Val) -> Bit {
        // prefer the operand with known bits for an exact answer
        let n = self.d.vnot(y);
        let r = self.d.ult(&n, x);
        r
    }
    fn x86(&mut self, n: &str, a: &[Val]) -> R<Val> {
        let lane = |s: &mut Interp, v: &Val, i: u32| s.d.extract(v, 32 * i, 32);
        match n {
            "x86.ssse3.pshuf.b.128" => {
                let mut out = vec![];
                for i in 0..16 {
                    let m = self.d.extract(&a[1], 8 * i, 8);
                    let Val::I(_, m) = m else { return Err("pshufb with variable mask".into()) };
                    out.push(if m & 0x80 != 0 { Val::I(8, 0) } else { self.d.extract(&a[0], 8 * (m as u32 & 15), 8) });
                }
                Ok(self.d.concat(&out))
            }
            "x86.sha256msg1" => {
                let mut w = vec![];
                for i in 0..4 { w.push(lane(self, &a[0], i)); }
                w.push(lane(self, &a[1], 0));
                let mut out = vec![];
                for i in 0..4 {
                    let s = crate::spec::ssig(&mut self.d, &w[i + 1], [7, 18], 3);
                    out.push(self.d.add(&w[i], &s));
                }
                Ok(self.d.concat(&out))
            }
            "x86.sha256msg2" => {
                let w14 = lane(self, &a[1], 2);
                let w15 = lane(self, &a[1], 3);
                let x: Vec<Val> = (0..4).map(|i| lane(self, &a[0], i)).collect();
                let s = |me: &mut Interp, v: &Val| crate::spec::ssig(&mut me.d, v, [17, 19], 10);
                let t = s(self, &w14);
                let w16 = self.d.add(&x[0], &t);
                let t = s(self, &w15);
                let w17 = self.d.add(&x[1], &t);
                let t = s(self, &w16);
                let w18 = self.d.add(&x[2], &t);
                let t = s(self, &w17);
                let w19 = self.d.add(&x[3], &t);
                Ok(self.d.concat(&[w16, w17, w18, w19]))
            }
            "x86.sha256rnds2" => {
                let (cdgh, abef, k) = (&a[0], &a[1], &a[2]);
                let mut v = [lane(self, abef, 3), lane(self, abef, 2), lane(self, cdgh, 3), lane(self, cdgh, 2), lane(self, abef, 1), lane(self, abef, 0), lane(self, cdgh, 1), lane(self, cdgh, 0)];
                for i in 0..2 {
                    let wk = lane(self, k, i);
                    crate::spec::sha2_round(&mut self.d, &mut v, &wk, None, [2, 13, 22], [6, 11, 25]);
                }
                Ok(self.d.concat(&[v[5].clone(), v[4].clone(), v[1].clone(), v[0].clone()]))
            }
            _ => Err(format!("intrinsic llvm.{n}")),
        }
    }
}
