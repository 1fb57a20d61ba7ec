//! What is analysed for each property.
use crate::check::*;
use crate::engines::*;
use crate::interp::Ev;
use crate::spec::{Alg, ALGS};
use crate::suites;

pub struct Plan { pub tasks: Vec<Task>, pub want: Want, pub gates: bool, pub floor: usize, pub explanation: String, pub rule: String, pub assumptions: Vec<String> }

const BLOCKS: [Alg; 6] = [Alg::Sha1, Alg::Sha256, Alg::Sha384, Alg::Sha512, Alg::Sha512_256, Alg::Ripemd160];

/// Sizes the crate's own code compares, masks or divides by, outside the lengths always analysed.
pub fn thresholds(lists: &[(String, String)]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for (_, f) in lists {
        let Ok(t) = std::fs::read_to_string(f) else { continue };
        for l in t.lines() {
            let Some((k, path)) = l.split_once(' ') else { continue };
            if k != "chf" && k != "harness" { continue; }
            let Ok(ll) = std::fs::read_to_string(path) else { continue };
            let mut inside = false;
            for l in ll.lines() {
                if l.starts_with("define ") { inside = l.contains("3chf") || k == "chf"; continue; }
                if !inside { continue; }
                let Some(e) = l.find(" = ") else {
                    continue;
                };
                let r = &l[e + 3..];
                let num = || r.split(|c: char| c == ' ' || c == ',').filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<u64>>();
                if (r.starts_with("icmp ") || r.starts_with("and ") || r.starts_with("udiv ") || r.starts_with("urem ")) && r.contains(" i64 ") {
                    for c in num() { if (130..=1 << 20).contains(&c) { for d in [c - 1, c, c + 1] { v.push(d as usize); } } }
                } else if r.starts_with("lshr i64") {
                    for c in num() { if (8..=20).contains(&c) { for d in [(1u64 << c) - 1, 1 << c, (1 << c) + 1] { v.push(d as usize); } } }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // the smaller ones are followed block by block
    let big: Vec<usize> = v.iter().copied().filter(|x| *x > 8192).take(12).collect();
    v.retain(|x| *x <= 8192);
    v.truncate(24);
    v.extend(big);
    v
}

fn long_all(cfg: &str, es: &[Eng], deep: bool, extra: &[usize], w: bool) -> Vec<Task> {
    es.iter().flat_map(|e| long(cfg, *e, &long_lengths(e.alg, deep, extra), w)).collect()
}
fn huge_all(cfg: &str, es: &[Eng], deep: bool, w: bool) -> Vec<Task> { es.iter().flat_map(|e| huge(cfg, *e, deep, w)).collect() }
fn engines() -> Vec<Eng> { BLOCKS.into_iter().map(plain).chain([keys()]).chain(ALGS.into_iter().map(|a| hmac(a, 5))).chain([tag(0), htag(5)]).collect() }

fn all_res(a: Alg) -> Vec<usize> { (0..a.block()).collect() }
fn some_res(a: Alg, deep: bool) -> Vec<usize> {
    let b = a.block();
    if deep || b == 8 { return all_res(a); }
    let lb = if b == 128 { 16 } else { 8 };
    vec![0, 1, 3, b / 2, b - lb - 2, b - lb - 1, b - lb, b - lb + 1, b - 2, b - 1]
}

const FIN: &[&str] = &["finalize", "fromengine"];
const SIPFIN: &[&str] = &["finalize", "engu64", "fromengine"];

fn keys() -> Eng { Eng { pre: "siphash24", alg: Alg::Siphash24, kind: Kind::Keys } }

fn hash_suites(cfg: &str, deep: bool, extra: &[usize]) -> Vec<Task> {
    let mut t = oneshot(cfg, &BLOCKS, deep, extra);
    for a in BLOCKS { t.extend(induction(cfg, plain(a), &all_res(a), FIN, 61)); }
    t
}
fn sip_suites(cfg: &str, deep: bool, extra: &[usize]) -> Vec<Task> {
    let mut t = siphash(cfg, deep, extra);
    t.extend(induction(cfg, keys(), &all_res(Alg::Siphash24), SIPFIN, 60));
    t
}
fn hmac_suites(cfg: &str, deep: bool) -> Vec<Task> {
    let mut t = vec![];
    for a in ALGS { t.extend(hmacs(cfg, a, deep)); t.extend(induction(cfg, hmac(a, 20), &some_res(a, deep), FIN, 60)); }
    t.extend(hmacs_tag(cfg, deep));
    t.extend(induction(cfg, htag(20), &some_res(Alg::Sha256, deep), FIN, 60));
    t
}
fn feed_suites(cfg: &str, deep: bool, extra: &[usize]) -> Vec<Task> {
    let mut t = vec![];
    for a in BLOCKS { t.extend(feeding(cfg, plain(a), deep, extra, &all_res(a))); t.extend(chunks(cfg, plain(a), deep)); }
    t.extend(feeding(cfg, keys(), deep, extra, &all_res(Alg::Siphash24)));
    t.extend(chunks(cfg, keys(), deep));
    t.extend(chunks(cfg, plain(Alg::Siphash24), deep));
    for a in ALGS { t.extend(feeding(cfg, hmac(a, 5), deep, extra, &some_res(a, deep))); t.extend(chunks(cfg, hmac(a, 0), deep)); }
    t.extend(feeding(cfg, tag(0), deep, extra, &some_res(Alg::Sha256, deep)));
    t.extend(chunks(cfg, tag(0), deep));
    t.extend(feeding(cfg, htag(5), deep, extra, &some_res(Alg::Sha256, deep)));
    t.extend(chunks(cfg, htag(0), deep));
    t
}
fn mid_suites(cfg: &str, deep: bool) -> Vec<Task> {
    let mut t = vec![];
    for a in BLOCKS { t.extend(midstates(cfg, plain(a), deep)); }
    t.extend(midstates(cfg, keys(), deep));
    for a in ALGS { t.extend(midstates(cfg, hmac(a, 5), deep)); }
    t.extend(midstates(cfg, tag(0), deep));
    t.extend(midstates(cfg, htag(5), deep));
    t
}
/// A thinner selection that still reaches every entry point, for the effect analyses.
fn effects(cfg: &str, deep: bool, extra: &[usize], types: bool, io: bool) -> Vec<Task> {
    let mut t = oneshot(cfg, &BLOCKS, deep, extra);
    for a in BLOCKS { t.extend(induction(cfg, plain(a), &all_res(a), FIN, 60)); t.extend(feeding(cfg, plain(a), deep, extra, &some_res(a, deep))); t.extend(chunks(cfg, plain(a), deep)); }
    t.extend(sip_suites(cfg, deep, extra));
    t.extend(feeding(cfg, keys(), deep, extra, &all_res(Alg::Siphash24)));
    t.extend(chunks(cfg, keys(), deep));
    t.extend(hmac_suites(cfg, deep));
    for a in ALGS { t.extend(chunks(cfg, hmac(a, 0), deep)); }
    t.extend(chunks(cfg, htag(0), deep));
    t.extend(mid_suites(cfg, deep));
    t.extend(tagged(cfg, deep, extra, ""));
    t.extend(chunks(cfg, tag(0), deep));
    t.extend(suites::fixed_eq(cfg, deep, extra));
    if io { t.extend(writers(cfg, deep, true)); }
    t.extend(long_all(cfg, &engines(), false, extra, false));
    t.extend(huge_all(cfg, &engines(), false, false));
    t.extend(huge_const(cfg, false));
    if types {
        t.extend(suites::conversions(cfg, deep, cfg != "nostd"));
        t.extend(suites::formatting(cfg));
        t.extend(suites::formatting_options(cfg));
        t.extend(suites::parsing(cfg, deep));
        t.extend(suites::comparison(cfg));
    }
    t
}

pub fn plan(id: &str, deep: bool, extra: &[usize]) -> Option<Plan> {
    let mut t = vec![];
    let mut want = Want::Functional;
    let mut gates = false;
    let floor;
    let rule;
    let mut ass: Vec<String> = vec!["one call's chunk length is enumerated (all lengths up to a few blocks, the boundary lengths and every size constant visible in the code); contents, prior state and prior length are arbitrary".into(), "x86-64".into()];
    match id {
        "C01" => { t = hash_suites("rel", deep, extra); for c in ["small", "nostd"] { t.extend(hash_suites(c, deep, extra)); } t.extend(long_all("rel", &BLOCKS.map(plain), deep, extra, false)); t.extend(huge_all("rel", &BLOCKS.map(plain), deep, false)); floor = 30; rule = "the abstract digest has the same value number as the standard's definition, for arbitrary message bytes; plus start/step/finish induction over arbitrary chaining value and block count"; }
        "C02" => { t = sip_suites("rel", deep, extra); t.extend(long_all("rel", &[keys(), plain(Alg::Siphash24)], deep, extra, false)); t.extend(huge_all("rel", &[keys(), plain(Alg::Siphash24)], deep, false)); floor = 12; rule = "same value number as SipHash-2-4 for arbitrary keys and bytes; plus start/step/finish induction"; }
        "C03" => { t = hmac_suites("rel", deep); for a in ALGS { t.extend(long("rel", hmac(a, 5), &long_lengths(a, deep, extra), false)); t.extend(huge("rel", hmac(a, 5), deep, false)); t.extend(long_keys("rel", a, &long_lengths(a, deep, extra))); } t.extend(long("rel", htag(5), &long_lengths(Alg::Sha256, deep, extra), false)); t.extend(huge("rel", htag(5), deep, false)); floor = 35; rule = "same value number as RFC 2104 over the hash's definition for arbitrary key and message bytes; plus induction over the inner state"; }
        "C04" => { t = feed_suites("rel", deep, extra); t.extend(long_all("rel", &engines(), deep, extra, false)); t.extend(huge_all("rel", &engines(), deep, false)); floor = 100; rule = "from any state with r pending bytes a chunk of n bytes leads to the canonical state of the concatenation; counts and clones likewise"; }
        "C05" => { t = mid_suites("rel", deep); t.extend(mid_suites("small", false)); floor = 70; rule = "an engine resumed from the midstate of any state has the same count, midstate and continuation; unaligned lengths do not return"; }
        "C06" => {
            for c in ["rel", "nostd", "small"] { t.extend(hash_suites(c, deep, extra)); t.extend(sip_suites(c, deep, extra)); t.extend(tagged(c, deep, extra, "const")); for a in [Alg::Sha256, Alg::Sha512, Alg::Ripemd160] { t.extend(hmacs(c, a, false)); } }
            floor = 40; rule = "each variant has the value number of the one definition, for both values of every CPU feature bit";
        }
        "C07" => { t = tagged("rel", deep, extra, ""); t.extend(tagged("small", false, extra, "")); for i in 0..3 { t.extend(induction("rel", tag(i), &some_res(Alg::Sha256, deep), FIN, 60)); } t.extend(long_all("rel", &[tag(0), tag(1)], deep, extra, false)); t.extend(huge_const("rel", deep)); t.extend(huge_all("rel", &[tag(0)], deep, false)); floor = 25; rule = "same value number as the SHA-256 definition over doubled tag digest and message"; }
        "C08" => { t = suites::layout("rel"); t.extend(suites::conversions("rel", deep, true)); floor = 150; rule = "each view has the value numbers of the bytes the value was made from; acceptance is the length condition"; }
        "C09" => { t = suites::formatting("rel"); t.extend(suites::parsing("rel", deep)); floor = 100; rule = "text has the value numbers of the hex digits; acceptance is the hex predicate as a boolean function of the characters"; }
        "C10" => { t = suites::serde("serde", deep); floor = 30; rule = "as for text and bytes, through a human-readable and a binary format"; }
        "C11" => { for c in ["rel", "nostd"] { t.extend(suites::fixed_eq(c, deep, extra)); } floor = 1; rule = "the result is the equality function of the two slices; unequal lengths do not return"; }
        "C12" => {
            for c in ["rel", "nostd", "small"] {
                let d = deep && c == "rel";
                t.extend(effects(c, d, extra, false, c != "nostd"));
            }
            want = Want::Events(vec![Ev::SecretBranch, Ev::SecretAddr]);
            floor = 150; rule = "no branch condition, switch or address depends on a message, key or compared byte";
        }
        "C13" => {
            t = suites::layout("rel");
            t.extend(effects("rel", deep, extra, true, true));
            t.extend(effects("small", false, extra, false, true));
            t.extend(suites::serde("serde", deep));
            want = Want::Events(vec![Ev::Ub, Ev::Gate]);
            gates = true;
            floor = 400; rule = "every access is inside a live object, initialised and aligned; functions with optional CPU features are called only under their detection bits";
        }
        "C14" => {
            for c in ["rel", "chk"] { t.extend(effects(c, deep && c == "chk", extra, true, true)); }
            for c in ["serde", "chk"] { t.extend(suites::serde(c, deep)); }
            t.extend(oneshot("chksmall", &BLOCKS, false, extra));
            for a in BLOCKS { t.extend(induction("chksmall", plain(a), &all_res(a), FIN, 60)); }
            t.extend(mid_suites("chksmall", false));
            t.extend(tagged("chksmall", false, extra, ""));
            want = Want::Events(vec![Ev::Panic]);
            floor = 400; rule = "no reachable panic, abort or unreachable outside the documented condition";
        }
        "C15" => { t = writers("rel", deep, true); t.extend(writers("serde", false, true)); t.extend(long_all("rel", &WRITERS.map(eng_of), false, extra, true)); t.extend(huge_all("rel", &WRITERS.map(eng_of), deep, true)); floor = 70; rule = "state after writing equals the state after inputting; the count is the length; flush changes nothing"; }
        "C17" => { t = suites::comparison("rel"); floor = 200; rule = "each comparison is the boolean function of the bytes that the lexicographic order defines"; }
        "C18" => { t = suites::schema("schema"); floor = 14; rule = "schema fields as computed, pattern automaton includes all hex strings"; ass = vec![]; }
        "C19" => {
            t = effects("rel", deep, extra, true, true);
            t.extend(effects("small", false, extra, false, true));
            want = Want::Events(vec![Ev::GlobalRead, Ev::GlobalWrite, Ev::Alloc, Ev::Extern]);
            floor = 400; rule = "no mutable global is read or written, nothing is allocated, nothing external is called";
        }
        _ => return None,
    }
    Some(Plan { tasks: t, want, gates, floor, explanation: "interprocedural abstract interpretation of the unoptimised LLVM IR of /repo's current tree (nothing is executed): joins at post-dominators, bit-precise global value numbering of all values, every memory access, branch and call checked".into(), rule: rule.into(), assumptions: ass })
}
