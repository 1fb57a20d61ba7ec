//! When may a loop be continued from a late iteration? Three iterations (the present one, the next one and the
//! target) are analysed, and every constant that occurs in them is recorded. If the three records show the same
//! instructions, every constant moves on by the same step without wrapping, and every instruction is one for which
//! this at both ends implies the same in between, all iterations in between take the same path.
use crate::fx::Map;
use crate::ir::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule { Copy, Sel, Load(u64, bool), Store(u64), Lin, Mul, Shl, Shr, Div, And, Rem, OrXor, Ucmp, Scmp, Eq, MinMax, Carry, SatAdd, Mem, Set, Fixed }

pub type C = Option<(u32, u64)>;
#[derive(Clone, Debug)]
pub struct Entry { pub site: usize, pub rule: Rule, pub v: Vec<C> }

pub fn bin_rule(op: BinOp, vec: bool) -> Rule {
    if vec { return Rule::Fixed; }
    match op {
        BinOp::Add | BinOp::Sub => Rule::Lin,
        BinOp::Mul => Rule::Mul,
        BinOp::Shl => Rule::Shl,
        BinOp::LShr => Rule::Shr,
        BinOp::UDiv => Rule::Div,
        BinOp::And => Rule::And,
        BinOp::URem => Rule::Rem,
        BinOp::Or | BinOp::Xor => Rule::OrXor,
        _ => Rule::Fixed,
    }
}
pub fn icmp_rule(p: Pred, vec: bool) -> Rule {
    if vec { return Rule::Fixed; }
    match p {
        Pred::Eq | Pred::Ne => Rule::Eq,
        Pred::Ult | Pred::Ugt | Pred::Ule | Pred::Uge => Rule::Ucmp,
        _ => Rule::Scmp,
    }
}
pub fn intrinsic_rule(n: &str) -> Option<Rule> {
    let n = &n[5..];
    let base = |s: &str| n == s || (n.starts_with(s) && n.as_bytes()[s.len()] == b'.');
    Some(if base("lifetime.start") || base("lifetime.end") || base("experimental.noalias.scope.decl") || n.starts_with("dbg.") || base("invariant.start") || base("prefetch") || base("is.constant") { return None }
        else if base("memcpy") || base("memmove") || base("memcpy.inline") { Rule::Mem }
        else if base("memset") { Rule::Set }
        else if n == "assume" || base("expect") { Rule::Copy }
        else if base("umin") || base("umax") || base("usub.sat") { Rule::MinMax }
        else if base("uadd.sat") { Rule::SatAdd }
        else if base("uadd.with.overflow") || base("usub.with.overflow") { Rule::Carry }
        else if base("umul.with.overflow") { Rule::Mul }
        else if base("ucmp") { Rule::Ucmp }
        else { Rule::Fixed })
}

/// A constant over the iterations: the first value, the step, the last value.
#[derive(Clone, Copy, Debug)]
struct A { z: i128, d: i128, e: i128, w: u32 }

fn affine(w: u32, x: u64, y: u64, z: u64, k: i128) -> Option<A> {
    let (x, y, z) = (x as i128, y as i128, z as i128);
    let d = y - x;
    if x + d * k != z { return None; }
    Some(A { z: x, d, e: z, w })
}
fn sgn(v: A) -> (i128, i128) {
    let s = |x: i128| if v.w > 0 && x >> (v.w - 1) & 1 == 1 { x - (1 << v.w) } else { x };
    (s(v.z), s(v.e))
}
/// None: steady. Otherwise the reason why not.
pub fn check(t0: &[Entry], t1: &[Entry], tk: &[Entry], k: usize, words: &[(u32, usize, u64, u64)]) -> Option<(usize, String)> {
    let k = k as i128;
    if t0.len() != t1.len() || t0.len() != tk.len() { return Some((0, "different paths".into())); }
    // memory that holds moving constants: object -> (offset, length, value)
    let mut mem: Map<u64, Vec<(u64, u64, A)>> = Map::default();
    for (id, o, z, d) in words {
        let t = (d.trailing_zeros() / 8) as u64;
        // the high part moves as a number of its own
        let d = ((*d as i64) >> (8 * t)) as i128;
        let z = (*z >> (8 * t)) as i128;
        let w = 64 - 8 * t as u32;
        let e = z + d * k;
        if e < 0 || e >> w != 0 { return Some((0, "a constant in memory wraps around".into())); }
        mem.entry(*id as u64).or_default().push((*o as u64 + t, 8 - t, A { z, d, e, w }));
    }
    for i in 0..t0.len() {
        let (a, b, c) = (&t0[i], &t1[i], &tk[i]);
        let bad = |s: &str| Some((a.site, format!("{s} {:?} {:x?} {:x?} {:x?}", a.rule, a.v, b.v, c.v)));
        if a.site != b.site || a.site != c.site || a.rule != b.rule || a.rule != c.rule || a.v.len() != b.v.len() || a.v.len() != c.v.len() { return bad("different paths"); }
        // unchanged constants are the usual case
        let moving = !(a.v == b.v && a.v == c.v);
        if !moving && !matches!(a.rule, Rule::Load(..) | Rule::Store(_) | Rule::Mem | Rule::Set) { continue; }
        let mut v: Vec<Option<A>> = Vec::with_capacity(a.v.len());
        for j in 0..a.v.len() {
            v.push(match (a.v[j], b.v[j], c.v[j]) {
                (None, None, None) => None,
                (Some((w, x)), Some((_, y)), Some((_, z))) => match affine(w, x, y, z, k) { Some(q) => Some(q), None => return bad("no constant step") },
                _ => return bad("not always a constant"),
            });
        }
        let still = |x: &Option<A>| x.map_or(true, |q| q.d == 0);
        let known = |x: &Option<A>| x.is_some();
        let split = |p: A| ((p.z >> 32) as u64, (p.z & 0xffff_ffff) as u64);
        let ok = match a.rule {
            Rule::Copy => true,
            Rule::Sel => known(&v[0]) || v.iter().all(still),
            Rule::Load(n, lazy) => {
                match v[0] {
                    None => v.iter().skip(1).all(still),
                    Some(p) if p.d != 0 => lazy && v[1].is_none(),
                    Some(p) => {
                        let (id, o) = split(p);
                        mem.get(&id).map_or(true, |l| l.iter().all(|(s, len, x)| {
                            if o + n <= *s || s + len <= o { return true; }
                            if v.len() != 2 { return false; }
                            let Some(r) = v[1] else { return false };
                            if o <= *s { return o == *s || r.d == x.d << (8 * (s - o)); }
                            let h = 8 * (o - s);
                            x.z >> h == x.e >> h
                        }))
                    }
                }
            }
            Rule::Store(n) => {
                match v[0] {
                    None => v.iter().all(still),
                    Some(p) if p.d != 0 => false,
                    Some(p) => {
                        let (id, o) = split(p);
                        let l = mem.entry(id).or_default();
                        l.retain(|(s, len, _)| !(o <= *s && s + len <= o + n));
                        if v.len() == 2 { if let Some(x) = v[1] { if x.d != 0 { l.push((o, n, x)); } } true }
                        else { v.iter().all(still) }
                    }
                }
            }
            Rule::Mem => match (v[0], v[1], v[2]) {
                (Some(p), Some(q), Some(n)) if p.d == 0 && n.d == 0 => {
                    let (n, (di, d)) = (n.z as u64, split(p));
                    let mut new = vec![];
                    let mut fine = true;
                    if q.d == 0 {
                        let (si, s) = split(q);
                        for (o, len, x) in mem.get(&si).into_iter().flatten() {
                            if *o >= s && o + len <= s + n { new.push((o - s + d, *len, *x)); }
                            else if *o < s + n && o + len > s { fine = false; }
                        }
                    }
                    let l = mem.entry(di).or_default();
                    l.retain(|(o, len, _)| !(*o >= d && o + len <= d + n));
                    l.extend(new);
                    fine
                }
                _ => v.iter().all(still),
            },
            Rule::Set => v.iter().all(still),
            Rule::Lin | Rule::Carry => v.iter().all(known),
            Rule::Mul => v.iter().all(known) && (still(&v[0]) || still(&v[1])),
            Rule::Shl => v.iter().all(known) && still(&v[1]),
            Rule::Shr | Rule::Div | Rule::Rem | Rule::And | Rule::OrXor => {
                if !v.iter().all(known) { false } else {
                    let (mut x, mut y) = (v[0].unwrap(), v[1].unwrap());
                    let r = v[2].unwrap();
                    if matches!(a.rule, Rule::And | Rule::OrXor) && y.d != 0 { std::mem::swap(&mut x, &mut y); }
                    if y.d != 0 { false } else {
                        let m = y.z;
                        let bits = 128 - m.leading_zeros();
                        match a.rule {
                            // monotone: equal at both ends, or exact
                            Rule::Shr => r.d == 0 || m < 64 && x.d & ((1i128 << m) - 1) == 0,
                            Rule::Div => r.d == 0 || m != 0 && x.d % m == 0,
                            Rule::Rem => m != 0 && (x.d % m == 0 || x.z / m == x.e / m),
                            Rule::OrXor => x.d & ((1i128 << bits) - 1) == 0,
                            _ => {
                                let low = m & (m + 1) == 0;
                                let inv = !m & ((1i128 << x.w) - 1);
                                let high = inv & (inv + 1) == 0;
                                x.d & ((1i128 << bits) - 1) == 0
                                    || low && x.z >> bits == x.e >> bits
                                    || high && (x.d & inv == 0 || r.d == 0)
                            }
                        }
                    }
                }
            }
            Rule::Ucmp | Rule::Eq | Rule::MinMax => {
                if !v.iter().all(known) { false } else {
                    let (x, y) = (v[0].unwrap(), v[1].unwrap());
                    let (p, q) = ((x.z - y.z).signum(), (x.e - y.e).signum());
                    match a.rule { Rule::MinMax => p * q >= 0, Rule::Eq => p == q, _ => v[2].unwrap().d == 0 }
                }
            }
            Rule::Scmp => {
                if !v.iter().all(known) { false } else {
                    let same = |x: A| { let (p, q) = sgn(x); (p < 0) == (q < 0) };
                    same(v[0].unwrap()) && same(v[1].unwrap()) && v[2].unwrap().d == 0
                }
            }
            Rule::SatAdd => v.iter().all(known) && { let (x, y) = (v[0].unwrap(), v[1].unwrap()); x.z + y.z >> x.w == 0 && x.e + y.e >> x.w == 0 },
            Rule::Fixed => v.iter().all(still),
        };
        if !ok { return bad("not decided in between"); }
    }
    None
}
