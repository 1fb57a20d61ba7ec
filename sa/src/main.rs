//! chfsa check ID --tier quick|thorough --seed N --verif DIR CFG=LIST...
mod check; mod dom; mod engines; mod fx; mod interp; mod ir; mod plan; mod regex; mod spec;
mod steady; mod suites;
use fx::Map;
use std::io::Write as _;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }

fn main() {
    let t0 = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(2).cloned().unwrap_or_default();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into());
    let (tier, seed, verif) = (opt("--tier", "quick"), opt("--seed", "1"), opt("--verif", "/verif"));
    let started: f64 = opt("--started", "0").parse().unwrap_or(0.0);
    let wit: u64 = opt("--witness", "0").parse().unwrap_or(0);
    let only = opt("--only", "");
    let deep = tier == "thorough";
    if std::env::var("CHFSA_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut progs: Map<String, Arc<ir::Program>> = Map::default();
    let mut mods = 0;
    for x in &a[3..] {
        let Some((c, f)) = x.split_once('=') else { continue };
        let txt = std::fs::read_to_string(f).unwrap_or_else(|e| { eprintln!("{f}: {e}"); std::process::exit(2) });
        let files: Vec<(String, String)> = txt.lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
        match ir::Program::load(&files) {
            Ok(p) => { mods += p.modules.len(); progs.insert(c.into(), Arc::new(p)); }
            Err(e) => { eprintln!("IR of {c} not readable: {e}"); std::process::exit(2) }
        }
    }
    let lists: Vec<(String, String)> = a[3..].iter().filter_map(|x| x.split_once('=').map(|(c, f)| (c.to_string(), f.to_string()))).collect();
    let extra = plan::thresholds(&lists);
    let Some(plan) = plan::plan(&id, deep, &extra) else { eprintln!("no plan for {id}"); std::process::exit(2) };
    let mut tasks = plan.tasks;
    // a configuration that does not compile is not analysed (property C16 reports it)
    let mut gone: Vec<String> = vec![];
    tasks.retain(|t| { let k = progs.contains_key(&t.cfg); if !k && !gone.contains(&t.cfg) { gone.push(t.cfg.clone()); } k });
    if !only.is_empty() { tasks.retain(|t| t.name.contains(&only)); }
    let floor = plan.floor;
    let (bud, lim) = if deep { (4 * 3600, 3600) } else { (600, 240) };
    let rep = check::run_all(&progs, tasks, plan.want, plan.gates, Duration::from_secs(bud), Duration::from_secs(lim));

    // known findings
    let kf = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    let known: Vec<&str> = kf.lines().filter_map(|l| l.strip_prefix(&format!("known: property={id} "))).collect();
    let (mut bad, mut old) = (vec![], vec![]);
    for v in &rep.vio { if known.iter().any(|k| *k == v.key) { old.push(v) } else { bad.push(v) } }
    for v in &old { println!("KNOWN-FINDING: property={id} {}", v.key); }
    let mut out = String::new();
    let dir = format!("{verif}/out/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.txt");
    if !bad.is_empty() {
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(f, "property {id}: {} violation(s)", bad.len());
        for v in &bad { let _ = writeln!(f, "\n{}", v.text.join("\n")); }
        for v in bad.iter().take(3) { for l in v.text.iter().take(8) { let mut l = l.clone(); if l.len() > 400 { l = l.chars().take(400).collect::<String>() + "..."; } out.push_str(&l); out.push('\n'); } out.push('\n'); }
    } else { let _ = std::fs::remove_file(&path); }
    let entries = rep.entries;
    let c = &rep.counts;
    let mut und = rep.und.clone();
    for g in &gone { und.push(format!("configuration {g} does not compile: not analysed")); }
    let undecided = und.len();
    und.truncate(40);
    let mut trusted = vec!["rustc front end up to unoptimised LLVM IR".to_string(), "the analyser's model of the IR and of the intrinsics".into(), "the definitions in sa/src/spec.rs".into()];
    trusted.truncate(3);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"other\",\n \"coverage\": {{\n  \"explanation\": {},\n  \"rule\": {},\n  \"tasks\": {},\n  \"tasks_per_configuration\": {{{}}},\n  \"obligations\": {},\n  \"discharged\": {},\n  \"undecided\": {},\n  \"type_level_witnesses_accepted\": {wit},\n  \"undecided_list\": {},\n  \"entry_points\": {},\n  \"functions_analysed\": {},\n  \"function_names\": {},\n  \"ir_modules\": {mods},\n  \"instructions_interpreted\": {},\n  \"call_sites_followed\": {},\n  \"branches_decided\": {},\n  \"joins\": {},\n  \"memory_accesses_checked\": {},\n  \"distinct_abstract_values\": {},\n  \"extra_lengths_from_constants\": {},\n  \"samples\": {},\n  \"trusted_base\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(&id), js(&tier), seed, js(&plan.explanation), js(&plan.rule), rep.tasks, rep.per_cfg.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "),
        rep.obl, rep.dis, undecided, jl(&und), entries, rep.functions.len(), jl(&rep.functions.iter().take(150).cloned().collect::<Vec<_>>()), c.insts, c.calls, c.branches, c.joins, c.accesses, c.values,
        format!("[{}]", extra.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")), jl(&rep.samples), jl(&trusted), jl(&plan.assumptions), t0.elapsed().as_secs_f64() + started, bad.len());
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{id}.json"), ev).unwrap();
    println!("{id} [{tier}]: {} tasks, {} obligations, {} discharged, {} undecided, {} functions, {} entry points, {:.1} s", rep.tasks, rep.obl, rep.dis, undecided, rep.functions.len(), entries, t0.elapsed().as_secs_f64());
    for u in und.iter().take(if std::env::var("CHFSA_VERBOSE").is_ok() { 40 } else { 5 }) { println!("  undecided: {u}"); }
    if !bad.is_empty() {
        print!("{out}");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
    if only.is_empty() && (entries < floor || rep.obl == 0) { eprintln!("only {entries} entry points analysed, at least {floor} expected"); std::process::exit(2); }
}
