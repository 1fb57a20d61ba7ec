//! Does a JSON schema pattern match every hex string of a given length? Decided on the pattern's
//! automaton; patterns outside the supported syntax are reported as not understood.
use std::collections::BTreeSet;

enum Re { Set(Vec<bool>), Cat(Vec<Re>), Alt(Vec<Re>), Rep(Box<Re>, usize, Option<usize>), Begin, End }

struct P<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;

fn class(c: u8) -> Option<Vec<bool>> {
    let f: fn(u8) -> bool = match c { b'd' => |x| x.is_ascii_digit(), b'w' => |x| x.is_ascii_alphanumeric() || x == b'_', b's' => |x| x.is_ascii_whitespace(),
        b'D' => |x| !x.is_ascii_digit(), b'W' => |x| !(x.is_ascii_alphanumeric() || x == b'_'), b'S' => |x| !x.is_ascii_whitespace(), _ => return None };
    Some((0..128).map(|x| f(x as u8)).collect())
}
fn one(c: u8) -> Vec<bool> { (0..128).map(|x| x == c as usize).collect() }

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> { self.s.get(self.i).copied() }
    fn alt(&mut self) -> R<Re> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some(b'|') { self.i += 1; v.push(self.cat()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> R<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' { break; }
            let a = self.atom()?;
            v.push(self.quant(a)?);
        }
        Ok(Re::Cat(v))
    }
    fn num(&mut self) -> Option<usize> {
        let st = self.i;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok()
    }
    fn quant(&mut self, a: Re) -> R<Re> {
        let (lo, hi) = match self.peek() {
            Some(b'*') => { self.i += 1; (0, None) }
            Some(b'+') => { self.i += 1; (1, None) }
            Some(b'?') => { self.i += 1; (0, Some(1)) }
            Some(b'{') => {
                self.i += 1;
                let lo = self.num().ok_or("repetition")?;
                let hi = if self.peek() == Some(b',') { self.i += 1; self.num() } else { Some(lo) };
                if self.peek() != Some(b'}') { return Err("repetition".into()); }
                self.i += 1;
                if lo > 1000 || hi.map_or(false, |h| h > 1000 || h < lo) { return Err("repetition bounds".into()); }
                (lo, hi)
            }
            _ => return Ok(a),
        };
        if self.peek() == Some(b'?') { self.i += 1; } // lazy: same language
        if matches!(self.peek(), Some(b'*' | b'+' | b'{')) { return Err("double repetition".into()); }
        Ok(Re::Rep(Box::new(a), lo, hi))
    }
    fn atom(&mut self) -> R<Re> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            b'^' => Re::Begin,
            b'$' => Re::End,
            b'.' => Re::Set((0..128).map(|x| x != 10 && x != 13).collect()),
            b'(' => {
                if self.peek() == Some(b'?') { if self.s.get(self.i + 1) == Some(&b':') { self.i += 2; } else { return Err("group kind".into()); } }
                let r = self.alt()?;
                if self.peek() != Some(b')') { return Err("group".into()); }
                self.i += 1;
                r
            }
            b'[' => {
                let neg = self.peek() == Some(b'^');
                if neg { self.i += 1; }
                let mut set = vec![false; 128];
                loop {
                    let c = self.peek().ok_or("class")?;
                    self.i += 1;
                    if c == b']' { break; }
                    if c == b'\\' {
                        let e = self.peek().ok_or("class")?;
                        self.i += 1;
                        match class(e) { Some(k) => for i in 0..128 { set[i] |= k[i]; }, None if !e.is_ascii_alphanumeric() => set[e as usize & 127] = true, None => return Err("escape".into()) }
                        continue;
                    }
                    if c > 127 { return Err("class".into()); }
                    if self.peek() == Some(b'-') && self.s.get(self.i + 1).map_or(false, |x| *x != b']') {
                        let hi = self.s[self.i + 1];
                        if hi == b'\\' || hi > 127 || hi < c { return Err("range".into()); }
                        self.i += 2;
                        for x in c..=hi { set[x as usize] = true; }
                    } else { set[c as usize] = true; }
                }
                if neg { for x in &mut set { *x = !*x; } }
                Re::Set(set)
            }
            b'\\' => {
                let e = self.peek().ok_or("escape")?;
                self.i += 1;
                match class(e) { Some(k) => Re::Set(k), None if !e.is_ascii_alphanumeric() => Re::Set(one(e)), None => return Err("escape".into()) }
            }
            b'*' | b'+' | b'?' | b'{' | b'}' | b']' => return Err("stray operator".into()),
            _ if c < 128 => Re::Set(one(c)),
            _ => return Err("non-ASCII".into()),
        })
    }
}

#[derive(Default)]
struct Nfa { eps: Vec<Vec<(usize, u8)>>, step: Vec<Vec<(Vec<bool>, usize)>> } // eps kinds: 0 free, 1 at begin, 2 at end
impl Nfa {
    fn st(&mut self) -> usize { self.eps.push(vec![]); self.step.push(vec![]); self.eps.len() - 1 }
    fn build(&mut self, r: &Re, from: usize) -> usize {
        match r {
            Re::Set(s) => { let t = self.st(); self.step[from].push((s.clone(), t)); t }
            Re::Begin => { let t = self.st(); self.eps[from].push((t, 1)); t }
            Re::End => { let t = self.st(); self.eps[from].push((t, 2)); t }
            Re::Cat(v) => v.iter().fold(from, |f, x| self.build(x, f)),
            Re::Alt(v) => { let t = self.st(); for x in v { let s = self.st(); self.eps[from].push((s, 0)); let e = self.build(x, s); self.eps[e].push((t, 0)); } t }
            Re::Rep(x, lo, hi) => {
                let mut f = from;
                for _ in 0..*lo { f = self.build(x, f); }
                match hi {
                    None => { let s = self.st(); self.eps[f].push((s, 0)); let e = self.build(x, s); self.eps[e].push((s, 0)); let t = self.st(); self.eps[s].push((t, 0)); t }
                    Some(h) => { let t = self.st(); self.eps[f].push((t, 0)); for _ in *lo..*h { f = self.build(x, f); self.eps[f].push((t, 0)); } t }
                }
            }
        }
    }
    fn close(&self, v: &BTreeSet<usize>, begin: bool, end: bool) -> BTreeSet<usize> {
        let mut r = v.clone();
        let mut w: Vec<usize> = v.iter().copied().collect();
        while let Some(s) = w.pop() { for (t, k) in &self.eps[s] { if *k == 0 || (*k == 1 && begin) || (*k == 2 && end) { if r.insert(*t) { w.push(*t); } } } }
        r
    }
}

/// A hex string of the given length the pattern does not match, if any.
pub fn rejects(pat: &str, len: usize) -> R<Option<String>> {
    let mut p = P { s: pat.as_bytes(), i: 0 };
    let re = p.alt()?;
    if p.i != pat.len() { return Err("unbalanced".into()); }
    let mut n = Nfa::default();
    let s0 = n.st();
    let acc = n.build(&re, s0);
    // unanchored search: a match may start anywhere and end anywhere
    let hex = b"0123456789abcdefABCDEF";
    let start: BTreeSet<usize> = [s0].into();
    let mut cur: Vec<(BTreeSet<usize>, String)> = vec![(n.close(&start, true, len == 0), String::new())];
    for i in 0..len {
        let mut next: Vec<(BTreeSet<usize>, String)> = vec![];
        let mut seen: BTreeSet<BTreeSet<usize>> = BTreeSet::new();
        for (set, w) in &cur {
            if set.contains(&acc) { continue; }
            for c in hex {
                let mut t: BTreeSet<usize> = set.iter().flat_map(|s| n.step[*s].iter().filter(|(k, _)| k[*c as usize]).map(|x| x.1)).collect();
                t.insert(s0);
                let t = n.close(&t, false, i + 1 == len);
                if seen.insert(t.clone()) { next.push((t, format!("{w}{}", *c as char))); }
                if next.len() > 5000 { return Err("too many states".into()); }
            }
        }
        cur = next;
    }
    Ok(cur.into_iter().find(|(s, _)| !s.contains(&acc)).map(|x| x.1))
}
