//! Obligations, tasks and reports.
use crate::dom::*;
use crate::fx::{Map, Set};
use crate::interp::*;
use crate::ir::Program;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Vio { pub key: String, pub text: Vec<String> }

/// Which facts a run of the suites is asked to decide.
#[derive(Clone, PartialEq)]
pub enum Want { Functional, Events(Vec<Ev>) }

#[derive(Default, Clone)]
pub struct Counts { pub insts: u64, pub calls: u64, pub branches: u64, pub joins: u64, pub accesses: u64, pub values: u64 }

pub struct Run {
    pub it: Interp,
    pub cfg: String,
    pub task: String,
    pub want: Want,
    pub obl: u64,
    pub dis: u64,
    pub und: Vec<String>,
    pub vio: Vec<Vio>,
    pub samples: Vec<String>,
    /// Inputs considered (all by default).
    pub assume: Bit,
    /// Documented panic condition of the current call.
    pub may_panic: Bit,
    pub seen: Set<String>,
    entries: Set<String>,
}

pub fn u64v(k: u64) -> Val { Val::I(64, k) }

impl Run {
    fn new(p: Arc<Program>, cfg: &str, task: &str, want: Want, deadline: Instant) -> Run {
        let mut it = Interp::new(p);
        it.d.deadline = Some(deadline);
        Run { it, cfg: cfg.into(), task: task.into(), want, obl: 0, dis: 0, und: vec![], vio: vec![], samples: vec![], assume: T, may_panic: F, seen: Set::default(), entries: Set::default() }
    }
    /// Coarse values from here on, if only effects are wanted.
    pub fn rough(&mut self, on: bool) { self.it.d.coarse = on && !self.functional(); }
    pub fn functional(&self) -> bool { self.want == Want::Functional }
    pub fn fresh_bytes(&mut self, name: &str, n: usize) -> Vec<Val> {
        (0..n).map(|i| self.it.d.fresh(&format!("{name}[{i}]"), 8, SECRET)).collect()
    }
    pub fn konst(&self, name: &str) -> R<u64> {
        // `static c_..: usize` of the harness
        self.it.p.const_u64(name).ok_or_else(|| format!("no constant {name}"))
    }
    fn fail(&mut self, rule: &str, site: &str, key: String, mut text: Vec<String>) {
        if !self.seen.insert(format!("{rule}{key}")) { return; }
        let mut t = vec![format!("rule: {rule}"), format!("obligation: {} [{}]", self.task, self.cfg), format!("site: {site}")];
        t.append(&mut text);
        self.vio.push(Vio { key: format!("{rule} | {key}"), text: t });
    }
    fn sites(&self) -> String {
        let mut v: Vec<String> = self.it.funcs_seen.iter().map(|f| &self.it.p.funcs[*f]).filter(|f| self.it.p.modules[f.module].krate == "chf" || f.pretty.starts_with("<chf::") || f.pretty.starts_with("chf::")).map(|f| f.pretty.clone()).collect();
        v.sort();
        v.dedup();
        v.truncate(24);
        v.join(", ")
    }
    /// A call that must return for every input (outside `may_panic`). Err: not analysable.
    pub fn call(&mut self, name: &str, args: &[Val]) -> R<Option<Val>> {
        self.entries.insert(name.into());
        let mp = self.may_panic;
        let r = self.it.call_name(name, args);
        self.events(name)?;
        let r = r?;
        let pc = self.it.st.pc;
        let np = self.it.d.not(mp);
        let must = self.it.d.and(self.assume, np);
        let npc = self.it.d.not(pc);
        let miss = if r.is_none() { must } else { self.it.d.and(must, npc) };
        if self.functional() {
            self.obl += 1;
            if miss == F { self.dis += 1; }
            else if let Some(e) = self.it.d.find_point(miss) {
                let w = self.it.d.point_text(&e);
                let s = self.sites();
                self.fail("the call returns for every input", &s, format!("{name} does not return"), vec![format!("entry point {name} does not return for: {w}")]);
            } else { self.und.push(format!("{}: {name}: termination for all inputs not decided", self.task)); }
            if mp != F {
                // and it does not return where it is documented to panic
                let over = if r.is_none() { F } else { self.it.d.and(pc, mp) };
                self.obl += 1;
                if over == F { self.dis += 1; }
                else if let Some(e) = self.it.d.find_point(over) {
                    let w = self.it.d.point_text(&e);
                    let s = self.sites();
                    self.fail("the call refuses this input", &s, format!("{name} returns"), vec![format!("entry point {name} returns for: {w}")]);
                } else { self.und.push(format!("{}: {name}: refusal not decided", self.task)); }
            }
        }
        match r {
            Some(v) => {
                let keep = self.it.d.and(self.assume, np);
                let q = self.it.d.and(pc, keep);
                self.it.st.pc = q;
                if q == F { return Err("stop".into()); }
                Ok(v)
            }
            None => Err("stop".into()),
        }
    }
    fn events(&mut self, name: &str) -> R<()> {
        let evs = self.it.take_events();
        let Want::Events(kinds) = self.want.clone() else { return Ok(()) };
        for e in evs {
            if !kinds.contains(&e.kind) { continue; }
            // a vector is what this one returns
            if e.kind == Ev::Alloc && name.ends_with("_tovec") { continue; }
            let mut pc = e.pc;
            if e.kind == Ev::Panic {
                let np = self.it.d.not(self.may_panic);
                pc = self.it.d.and(pc, np);
                if pc == F { continue; }
            }
            pc = self.it.d.and(pc, self.assume);
            if pc == F { continue; }
            let key = format!("{} | {}", e.key, e.msg);
            match self.it.d.find_point(pc) {
                Some(p) => {
                    let w = self.it.d.point_text(&p);
                    let mut t = vec![format!("{}", e.msg), format!("entry point: {name}"), format!("for example with: {w}"), "reached through:".into()];
                    t.extend(e.stack.iter().map(|s| format!("  {s}")));
                    self.fail(rule_of(e.kind), &e.loc, key, t);
                }
                None => if self.und.len() < 200 { self.und.push(format!("{}: possible {} at {} not decided", self.task, e.msg, e.loc)); },
            }
        }
        Ok(())
    }
    /// A fact that is wrong for every input.
    pub fn wrong(&mut self, rule: &str, key: &str, text: &str) {
        self.obl += 1;
        let s = self.sites();
        self.fail(rule, &s, key.into(), vec![text.into()]);
    }
    /// The values must be the same for all inputs.
    pub fn same(&mut self, what: &str, got: &[Val], want: &[Val]) {
        if !self.functional() { return; }
        self.obl += 1;
        if self.samples.len() < 2 { let d = got.first().map_or(String::new(), |v| self.it.d.describe(v)); self.samples.push(format!("{} [{}]: {what}: {} values equal to the definition's, first {d}", self.task, self.cfg, got.len())); }
        if got == want { self.dis += 1; return; }
        if got.len() != want.len() {
            let s = self.sites();
            self.fail("the result is the defined one", &s, what.into(), vec![format!("{what}: {} values instead of {}", got.len(), want.len())]);
            return;
        }
        let pc = self.it.st.pc;
        let mut open = 0;
        for i in 0..got.len() {
            if got[i] == want[i] { continue; }
            if self.it.d.has_undef(&got[i]) {
                let s = self.sites();
                self.fail("the result is the defined one", &s, what.into(), vec![format!("{what}: element {i} is uninitialised")]);
                return;
            }
            if let Some(mut e) = self.it.d.find_diff(&got[i], &want[i], pc) {
                let (a, b) = (self.it.d.eval_val(&got[i], &mut e), self.it.d.eval_val(&want[i], &mut e));
                let w = self.it.d.point_text(&e);
                let s = self.sites();
                let g: Vec<String> = got.iter().map(|v| format!("{:02x}", self.it.d.eval_val(v, &mut e))).collect();
                let x: Vec<String> = want.iter().map(|v| format!("{:02x}", self.it.d.eval_val(v, &mut e))).collect();
                self.fail("the result is the defined one", &s, what.into(), vec![
                    format!("{what}: element {i} is 0x{a:x}, defined as 0x{b:x}"), format!("got:     {}", g.join("")), format!("defined: {}", x.join("")), format!("for example with: {w}")]);
                return;
            }
            // equal under the current condition?
            let eq = self.it.d.eq(&got[i], &want[i]);
            let ne = self.it.d.not(eq);
            if self.it.d.and(ne, pc) != F { open += 1; }
        }
        if open == 0 { self.dis += 1; } else { self.und.push(format!("{}: {what}: {open} of {} values not decided", self.task, got.len())); }
    }
    pub fn same1(&mut self, what: &str, got: &Val, want: &Val) { self.same(what, &[got.clone()], &[want.clone()]) }
    /// The bit must be the same function of the inputs.
    pub fn same_bit(&mut self, what: &str, got: &Val, want: Bit) {
        let w = self.it.d.width(got);
        let b = self.it.d.word(&[want]);
        let b = if w > 1 { self.it.d.zext(&b, w) } else { b };
        self.same1(what, got, &b);
    }
    pub fn must(&mut self, what: &str, ok: bool, text: String) {
        if !self.functional() { return; }
        self.obl += 1;
        if ok { self.dis += 1; return; }
        let s = self.sites();
        self.fail("the result is the defined one", &s, what.into(), vec![format!("{what}: {text}")]);
    }
    pub fn reset(&mut self) { self.it.st.pc = self.assume; self.may_panic = F; }
}

fn rule_of(e: Ev) -> &'static str {
    match e {
        Ev::Panic => "no panic outside the documented ones",
        Ev::Ub => "every memory access is valid",
        Ev::Gate => "CPU-specific code is entered only after detection",
        Ev::SecretBranch => "no branch depends on secret data",
        Ev::SecretAddr => "no memory address depends on secret data",
        Ev::GlobalWrite | Ev::GlobalRead => "no hidden state",
        Ev::Alloc => "nothing is allocated",
        Ev::Extern => "no input, output or other external effect",
    }
}

pub struct Task { pub name: String, pub cfg: String, pub f: Box<dyn FnOnce(&mut Run) -> R<()> + Send> }
impl Task {
    pub fn new(cfg: &str, name: impl Into<String>, f: impl FnOnce(&mut Run) -> R<()> + Send + 'static) -> Task { Task { name: name.into(), cfg: cfg.into(), f: Box::new(f) } }
}

#[derive(Default)]
pub struct Report {
    pub tasks: usize, pub obl: u64, pub dis: u64, pub und: Vec<String>, pub vio: Vec<Vio>, pub samples: Vec<String>,
    pub counts: Counts, pub functions: Vec<String>, pub entries: usize, pub per_cfg: BTreeMap<String, usize>,
}

struct Res { obl: u64, dis: u64, und: Vec<String>, vio: Vec<Vio>, samples: Vec<String>, counts: Counts, funcs: Vec<String>, entries: Vec<String> }

pub fn run_all(progs: &Map<String, Arc<Program>>, tasks: Vec<Task>, want: Want, gates: bool, budget: Duration, task_limit: Duration) -> Report {
    let n = tasks.len();
    let per_cfg = { let mut m = BTreeMap::new(); for t in &tasks { *m.entry(t.cfg.clone()).or_insert(0) += 1; } m };
    let queue = Arc::new(Mutex::new(tasks.into_iter().enumerate().rev().collect::<Vec<_>>()));
    let results: Arc<Mutex<Vec<Option<Res>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let end = Instant::now() + budget;
    // once something is violated, what has not been started within two minutes is left out
    let soon = Instant::now() + Duration::from_secs(120);
    let broken = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8).min(n.max(1));
    let verbose = std::env::var("CHFSA_VERBOSE").is_ok();
    let mut hs = vec![];
    for _ in 0..threads {
        let (queue, results, progs, want, broken) = (queue.clone(), results.clone(), progs.clone(), want.clone(), broken.clone());
        hs.push(std::thread::Builder::new().stack_size(2 << 30).spawn(move || loop {
            let Some((i, t)) = queue.lock().unwrap().pop() else { return };
            let st = Instant::now();
            let stop = st > soon && broken.load(std::sync::atomic::Ordering::Relaxed);
            let res = if st > end || stop { Res { obl: 1, dis: 0, und: vec![format!("{} [{}]: not analysed within the time budget", t.name, t.cfg)], vio: vec![], samples: vec![], counts: Counts::default(), funcs: vec![], entries: vec![] } }
            else {
                let mut run = Run::new(progs[&t.cfg].clone(), &t.cfg, &t.name, want.clone(), end.min(st + task_limit));
                if gates { crate::suites::gates(&mut run); }
                run.rough(true);
                let f = t.f;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut run)));
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) if e == "stop" => {}
                    Ok(Err(e)) => { run.obl += 1; run.und.push(format!("{} [{}]: {e}", t.name, t.cfg)); }
                    Err(e) => {
                        run.obl += 1;
                        let m = if e.is::<Limit>() { "domain limit reached".to_string() } else { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() };
                        run.und.push(format!("{} [{}]: analysis stopped: {m}", t.name, t.cfg));
                    }
                }
                if let Want::Events(_) = run.want { run.obl = 1 + run.it.accesses + run.it.branches; run.dis = run.obl - (run.vio.len() + run.und.len()).min(run.obl as usize) as u64; }
                let it = &run.it;
                let funcs = it.funcs_seen.iter().map(|f| &it.p.funcs[*f]).filter(|f| it.p.modules[f.module].krate == "chf" || f.pretty.contains("chf::")).map(|f| f.pretty.clone()).collect();
                Res { obl: run.obl, dis: run.dis, und: run.und, vio: run.vio, samples: run.samples,
                    counts: Counts { insts: it.insts, calls: it.calls, branches: it.branches, joins: it.joins, accesses: it.accesses, values: it.d.words.len() as u64 }, funcs, entries: run.entries.into_iter().collect() }
            };
            if verbose { eprintln!("{:6.2}s {} [{}] und {} vio {}", st.elapsed().as_secs_f64(), t.name, t.cfg, res.und.len(), res.vio.len()); }
            if !res.vio.is_empty() { broken.store(true, std::sync::atomic::Ordering::Relaxed); }
            results.lock().unwrap()[i] = Some(res);
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    let mut rep = Report { tasks: n, per_cfg, ..Default::default() };
    let mut fs: Set<String> = Set::default();
    let mut es: Set<String> = Set::default();
    let mut keys: Set<String> = Set::default();
    for r in results.lock().unwrap().iter_mut() {
        let Some(r) = r.take() else { rep.und.push("task lost".into()); rep.obl += 1; continue };
        rep.obl += r.obl; rep.dis += r.dis; rep.und.extend(r.und);
        for v in r.vio { if keys.insert(v.key.clone()) { rep.vio.push(v); } }
        if rep.samples.len() < 6 { rep.samples.extend(r.samples.into_iter().take(1)); }
        let (c, d) = (&mut rep.counts, r.counts);
        c.insts += d.insts; c.calls += d.calls; c.branches += d.branches; c.joins += d.joins; c.accesses += d.accesses; c.values += d.values;
        fs.extend(r.funcs);
        es.extend(r.entries);
    }
    rep.functions = fs.into_iter().collect();
    rep.functions.sort();
    rep.entries = es.len();
    rep
}
