//! Suites over the hash engines: digests, feeding, midstates, HMAC, tagged hashes, writers.
use crate::check::*;
use crate::dom::*;
use crate::interp::R;
use crate::spec::{self, Alg, ALGS};

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Plain, Keys, Hmac(usize), Tag(&'static [u8]), HmacTag(usize, &'static [u8]) }

/// One engine type of the library, how to start it, and its definition.
#[derive(Clone, Copy)]
pub struct Eng { pub pre: &'static str, pub alg: Alg, pub kind: Kind }

pub const TAGS: [(&str, &[u8]); 3] = [("tagA", b"TapLeaf"), ("tagB", b""), ("tagC", b"0123456789abcdef0123456789abcdef0123456789abcdef0123456")];

pub fn plain(alg: Alg) -> Eng { Eng { pre: alg.name(), alg, kind: Kind::Plain } }
pub fn hmac_pre(alg: Alg) -> &'static str {
    match alg { Alg::Sha1 => "hmac_sha1", Alg::Sha256 => "hmac_sha256", Alg::Sha384 => "hmac_sha384", Alg::Sha512 => "hmac_sha512", Alg::Sha512_256 => "hmac_sha512_256", Alg::Ripemd160 => "hmac_ripemd160", Alg::Siphash24 => "hmac_siphash24" }
}
pub fn hmac(alg: Alg, key: usize) -> Eng { Eng { pre: hmac_pre(alg), alg, kind: Kind::Hmac(key) } }
pub fn tag(i: usize) -> Eng { Eng { pre: TAGS[i].0, alg: Alg::Sha256, kind: Kind::Tag(TAGS[i].1) } }

/// HMAC over the first tagged hash: the one engine that has consumed input before it is keyed.
pub fn htag(key: usize) -> Eng { Eng { pre: "hmac_tagA", alg: Alg::Sha256, kind: Kind::HmacTag(key, TAGS[0].1) } }

/// Block length of the crate's engine as seen by HMAC.
pub fn hblock(alg: Alg) -> usize { if alg == Alg::Siphash24 { 32 } else { alg.block() } }

/// A started engine and what the definition says about it.
pub struct Started { pub e: u64, pub size: usize, pub align: u64, pub h0: Vec<Val>, pub l0: u64, pub outer: Option<Vec<Val>>, pub key: Vec<Val>, pub keys: Option<(Val, Val)> }

pub fn absorb(d: &mut Dom, alg: Alg, h: Vec<Val>, msg: &[Val]) -> Vec<Val> {
    let mut h = h;
    assert!(msg.len() % alg.block() == 0);
    for c in msg.chunks(alg.block()) {
        h = if alg == Alg::Siphash24 { let m = spec::word_of(d, c, false); spec::sip_block(d, &h, &m) } else { spec::compress(d, alg, &h, c, &mut None) };
    }
    h
}
pub fn hmac_pads(d: &mut Dom, alg: Alg, key: &[Val]) -> (Vec<Val>, Vec<Val>) {
    let b = hblock(alg);
    let mut k = if key.len() > b { spec::hash(d, alg, key, &mut None) } else { key.to_vec() };
    while k.len() < b { k.push(Val::I(8, 0)); }
    let i: Vec<Val> = k.iter().map(|x| d.vxor(x, &Val::I(8, 0x36))).collect();
    let o: Vec<Val> = k.iter().map(|x| d.vxor(x, &Val::I(8, 0x5c))).collect();
    (i, o)
}
pub fn tag_state(d: &mut Dom, tag: &[Val]) -> Vec<Val> {
    let t = spec::hash(d, Alg::Sha256, tag, &mut None);
    let mut b = t.clone();
    b.extend(t);
    let iv = spec::init(d, Alg::Sha256);
    absorb(d, Alg::Sha256, iv, &b)
}
pub fn kbytes(b: &[u8]) -> Vec<Val> { b.iter().map(|x| Val::I(8, *x as u64)).collect() }

pub fn slice(r: &mut Run, v: &[Val], name: &str) -> [Val; 2] {
    let p = r.it.bytes_in(v, 1, name);
    [u64v(p), u64v(v.len() as u64)]
}

impl Eng {
    /// Starts an engine and finds how its memory is laid out.
    pub fn open(&self, r: &mut Run) -> R<(Started, Lay)> {
        r.rough(false);
        let s = self.start(r)?;
        let lay = self.discover(r, &s)?;
        r.rough(true);
        Ok((s, lay))
    }
    pub fn bs(&self) -> usize { self.alg.block() }
    pub fn f(&self, s: &str) -> String { format!("h_{}_{s}", self.pre) }
    pub fn place(&self, r: &mut Run) -> R<u64> {
        let (n, al) = (r.konst(&format!("c_{}_esize", self.pre))? as usize, r.konst(&format!("c_{}_ealign", self.pre))?);
        Ok(r.it.alloc(n, al, "engine"))
    }
    pub fn start(&self, r: &mut Run) -> R<Started> { self.start_by(r, "") }
    /// `by`: entry point, "" for the usual constructor.
    pub fn start_by(&self, r: &mut Run, by: &str) -> R<Started> {
        let size = r.konst(&format!("c_{}_esize", self.pre))? as usize;
        let align = r.konst(&format!("c_{}_ealign", self.pre))?;
        let e = self.place(r)?;
        let mut s = Started { e, size, align, h0: vec![], l0: 0, outer: None, key: vec![], keys: None };
        let ea = u64v(e);
        let by = if by.is_empty() { "new" } else { by };
        match self.kind {
            Kind::Plain => { r.call(&self.f(by), &[ea])?; s.h0 = spec::init(&mut r.it.d, self.alg); }
            Kind::Tag(t) => { r.call(&self.f(by), &[ea])?; s.h0 = tag_state(&mut r.it.d, &kbytes(t)); s.l0 = 64; }
            Kind::Keys => {
                let (k0, k1) = (r.it.d.fresh("k0", 64, SECRET), r.it.d.fresh("k1", 64, SECRET));
                r.call("h_sip_withkeys", &[k0.clone(), k1.clone(), ea])?;
                s.h0 = spec::sip_init(&mut r.it.d, &k0, &k1);
                s.keys = Some((k0, k1));
            }
            Kind::Hmac(n) | Kind::HmacTag(n, _) => {
                let key = r.fresh_bytes("key", n);
                if by == "new" {
                    let k = slice(r, &key, "key");
                    r.call(&self.f("key"), &[k[0].clone(), k[1].clone(), ea])?;
                } else { assert!(n == 0); r.call(&self.f(by), &[ea])?; }
                let d = &mut r.it.d;
                let hb = hblock(self.alg);
                let (h, before) = match self.kind { Kind::HmacTag(_, t) => (tag_state(d, &kbytes(t)), 64), _ => (spec::init(d, self.alg), 0) };
                let (i, o) = if before != 0 && n > hb {
                    let k = spec::finish(d, self.alg, h.clone(), &key, &u64v(before + n as u64), &mut None);
                    hmac_pads(d, self.alg, &k)
                } else { hmac_pads(d, self.alg, &key) };
                s.h0 = absorb(d, self.alg, h.clone(), &i);
                s.outer = Some(absorb(d, self.alg, h, &o));
                s.l0 = before + hb as u64;
                s.key = key;
            }
        }
        Ok(s)
    }
    /// Definition of the digest after chaining value `h`, with `tail` still to absorb and total length `len`.
    pub fn finish(&self, r: &mut Run, s: &Started, h: &[Val], tail: &[Val], len: &Val) -> Vec<Val> {
        let d = &mut r.it.d;
        let x = spec::finish(d, self.alg, h.to_vec(), tail, len, &mut None);
        match &s.outer {
            None => x,
            Some(o) => { let l = u64v(s.l0 + self.alg.dlen() as u64); spec::finish(d, self.alg, o.clone(), &x, &l, &mut None) }
        }
    }
    /// As `finish`, in the forms the definition may be written with summaries.
    pub fn finish_forms(&self, r: &mut Run, s: &Started, h: &[Val], tail: &[Val], len: &Val) -> Vec<Vec<Val>> {
        let mut o = vec![self.finish(r, s, h, tail, len)];
        if self.alg == Alg::Siphash24 && r.it.d.apps_on {
            r.it.d.sip_d_apps = true;
            o.push(self.finish(r, s, h, tail, len));
            r.it.d.sip_d_apps = false;
        }
        o
    }
    pub fn input(&self, r: &mut Run, e: u64, m: &[Val]) -> R<()> {
        let a = slice(r, m, "message");
        r.call(&self.f("input"), &[u64v(e), a[0].clone(), a[1].clone()])?;
        if let Val::I(_, p) = a[0] { r.it.free(p); }
        Ok(())
    }
    pub fn finalize(&self, r: &mut Run, e: u64) -> R<Vec<Val>> { self.finalize_by(r, e, "finalize") }
    pub fn finalize_by(&self, r: &mut Run, e: u64, by: &str) -> R<Vec<Val>> {
        let out = r.it.alloc(self.alg.dlen(), 1, "digest");
        r.call(&self.f(by), &[u64v(e), u64v(out)])?;
        Ok(r.it.get(out, self.alg.dlen()))
    }
    pub fn nbytes(&self, r: &mut Run, e: u64) -> R<Val> { Ok(r.call(&self.f("nbytes"), &[u64v(e)])?.ok_or("nbytes")?) }
    pub fn copy_of(&self, r: &mut Run, s: &Started, e: u64) -> u64 {
        let c = r.it.alloc(s.size, s.align, "engine copy");
        let raw = r.it.get_raw(e, s.size);
        r.it.put_raw(c, &raw);
        c
    }
}

// ---------------------------------------------------------------- the state invariant
#[derive(Clone, Copy, PartialEq)]
enum Cls { H(usize, usize), Ctr(usize), Const(u32), Stale }

/// Shape of an engine's memory after a whole number of blocks, found by comparing the engine after
/// none, one and two blocks with the definition.
pub struct Lay { ctr: Vec<(usize, u64, u64)>, cls: Vec<Cls>, be: bool }

fn le(raw: &[u32], o: usize, n: usize) -> Option<u64> {
    let mut k = 0u64;
    for i in 0..n { let b = *raw.get(o + i)?; if b > 255 { return None; } k |= (b as u64) << (8 * i); }
    Some(k)
}

impl Eng {
    /// Learns the layout; leaves the started engine after two blocks.
    pub fn discover(&self, r: &mut Run, s: &Started) -> R<Lay> {
        let bs = self.bs();
        let e = self.copy_of(r, s, s.e);
        let raw0 = r.it.get_raw(e, s.size);
        let m1 = r.fresh_bytes("d1", bs);
        self.input(r, e, &m1)?;
        let raw1 = r.it.get_raw(e, s.size);
        let m2 = r.fresh_bytes("d2", bs);
        self.input(r, e, &m2)?;
        let raw2 = r.it.get_raw(e, s.size);
        r.it.free(e);
        let h1 = absorb(&mut r.it.d, self.alg, s.h0.clone(), &m1);
        let h2 = absorb(&mut r.it.d, self.alg, h1.clone(), &m2);
        let ws = self.alg.word() as usize / 8;
        let mut best = None;
        for be in [false, true] {
            let mut cls = vec![None; s.size];
            let mut found = 0;
            for i in 0..h1.len() {
                let enc = |r: &mut Run, v: &Val| -> Vec<u32> { let b = spec::bytes_of(&mut r.it.d, v, be); b.iter().map(|x| r.it.enc(x)).collect() };
                let (b0, b1, b2) = (enc(r, &s.h0[i]), enc(r, &h1[i]), enc(r, &h2[i]));
                let mut any = false;
                for o in 0..=s.size.saturating_sub(ws) {
                    if raw1[o..o + ws] == b1[..] && raw2[o..o + ws] == b2[..] && raw0[o..o + ws] == b0[..] {
                        any = true;
                        for j in 0..ws { cls[o + j] = Some(Cls::H(i, j)); }
                    }
                }
                if any { found += 1; }
            }
            if found == h1.len() { best = Some((be, cls)); break; }
        }
        let (be, mut cls) = best.ok_or("engine layout not recognised (chaining value)")?;
        let mut ctr = vec![];
        for wd in [8usize, 4] {
            let mut o = 0;
            while o + wd <= s.size {
                if (o..o + wd).all(|i| cls[i].is_none()) {
                    if let (Some(a), Some(b), Some(c)) = (le(&raw0, o, wd), le(&raw1, o, wd), le(&raw2, o, wd)) {
                        let st = b.wrapping_sub(a);
                        if st == c.wrapping_sub(b) && (st == 1 || st == bs as u64 || st == 8 * bs as u64) {
                            for i in o..o + wd { cls[i] = Some(Cls::Ctr(ctr.len())); }
                            ctr.push((o, a, st));
                            o += wd;
                            continue;
                        }
                    }
                }
                o += 1;
            }
        }
        if ctr.is_empty() { return Err("engine layout not recognised (byte count)".into()); }
        let mut out = vec![];
        let mbytes: crate::fx::Set<u32> = m1.iter().chain(&m2).map(|v| r.it.enc(v)).collect();
        for i in 0..s.size {
            out.push(match cls[i] {
                Some(c) => c,
                None => if raw0[i] == raw1[i] && raw1[i] == raw2[i] { Cls::Const(raw0[i]) }
                    else if [raw1[i], raw2[i]].iter().all(|b| *b <= 256 || mbytes.contains(b)) { Cls::Stale }
                    else { return Err("engine layout not recognised (other state)".into()); },
            });
        }
        Ok(Lay { ctr, cls: out, be })
    }
    /// Memory of any engine after `q` whole blocks (beyond its start) with chaining value `h`.
    pub fn state(&self, r: &mut Run, s: &Started, lay: &Lay, h: &[Val], q: &Val, nm: &str) -> u64 {
        let e = r.it.alloc(s.size, s.align, "engine");
        let mut hb = vec![];
        for w in h { hb.push(spec::bytes_of(&mut r.it.d, w, lay.be)); }
        let mut cb = vec![];
        for (_, c0, st) in &lay.ctr {
            let v = r.it.d.shl_k(q, st.trailing_zeros());
            let v = r.it.d.add(&v, &u64v(*c0));
            cb.push(spec::bytes_of(&mut r.it.d, &v, false));
        }
        let mut vals = vec![];
        for (i, c) in lay.cls.iter().enumerate() {
            vals.push(match c {
                Cls::H(w, j) => r.it.enc(&hb[*w][*j]),
                Cls::Ctr(k) => r.it.enc(&cb[*k][i - lay.ctr[*k].0]),
                Cls::Const(b) => *b,
                Cls::Stale => { let v = r.it.d.fresh(&format!("{nm}[{i}]"), 8, SECRET); r.it.enc(&v) }
            });
        }
        r.it.put_raw(e, &vals);
        e
    }
    /// Symbolic state: arbitrary chaining value, arbitrary block count.
    pub fn any_state(&self, r: &mut Run, s: &Started, lay: &Lay, bits: u32) -> (u64, Vec<Val>, Val) {
        let w = self.alg.word();
        let h: Vec<Val> = (0..self.alg.nwords()).map(|i| r.it.d.fresh(&format!("H{i}"), w, SECRET)).collect();
        let q = r.it.d.fresh("blocks", bits - self.bs().trailing_zeros(), PUBLIC);
        let q = r.it.d.zext(&q, 64);
        let e = self.state(r, s, lay, &h, &q, "stale");
        (e, h, q)
    }
    pub fn len_of(&self, r: &mut Run, s: &Started, q: &Val, t: u64) -> Val {
        let v = r.it.d.shl_k(q, self.bs().trailing_zeros());
        r.it.d.add(&v, &u64v(s.l0 + t))
    }
}

// ---------------------------------------------------------------- block summaries
/// Looks for a function that, from any engine state and for any block, does exactly what the definition's
/// compression function does; its further calls are then represented by that function's value number.
pub fn summarise(r: &mut Run, alg: Alg) -> R<bool> {
    r.rough(false);
    let e = if alg == Alg::Siphash24 { Eng { pre: "siphash24", alg, kind: Kind::Keys } } else { plain(alg) };
    let s = e.start(r)?;
    let lay = e.discover(r, &s)?;
    let (c, hs, _) = e.any_state(r, &s, &lay, 60);
    let base = c;
    let m = r.fresh_bytes("b", e.bs());
    r.it.watched.clear();
    r.it.watch = Some((c >> 32) as u32);
    let done = e.input(r, c, &m);
    r.it.watch = None;
    let recs = std::mem::take(&mut r.it.watched);
    r.rough(true);
    done?;
    let ws = alg.word() as usize / 8;
    // where the words of the chaining value are
    let mut hoff = vec![];
    for i in 0..alg.nwords() { hoff.push(lay.cls.iter().position(|c| *c == Cls::H(i, 0)).ok_or("no chaining value")?); }
    let inside: Vec<bool> = (0..s.size).map(|i| hoff.iter().any(|o| i >= *o && i < o + ws)).collect();
    let menc: Vec<u32> = m.iter().map(|v| r.it.enc(v)).collect();
    for (fid, args, pre, post) in recs {
        if post.len() != pre.len() || pre == post || (0..pre.len()).any(|i| !inside[i] && pre[i] != post[i]) { continue; }
        let Some(harg) = args.iter().position(|a| matches!(a, Val::I(64, k) if k >> 32 == base >> 32)) else { continue };
        let Val::I(_, hp) = args[harg] else { continue };
        let get = |r: &mut Run, raw: &[u32]| -> Vec<Val> {
            hoff.iter().map(|o| { let b: Vec<Val> = raw[*o..*o + ws].iter().map(|x| r.it.dec(*x)).collect(); spec::word_of(&mut r.it.d, &b, lay.be) }).collect()
        };
        let (h0, h1) = (get(r, &pre), get(r, &post));
        let rel: Vec<i64> = hoff.iter().map(|o| (base + *o as u64).wrapping_sub(hp) as i64).collect();
        let mut forms: Vec<Option<(usize, i64)>> = vec![];
        for o in 0..=pre.len().saturating_sub(menc.len()) { if pre[o..o + menc.len()] == menc[..] { forms.push(Some((harg, (base + o as u64).wrapping_sub(hp) as i64))); } }
        for (i, a) in args.iter().enumerate() {
            if let Val::I(64, k) = a { if k >> 32 != base >> 32 { if let Some(b) = r.it.try_bytes(*k, menc.len()) { if b == menc { forms.push(Some((i, 0))); } } } }
        }
        if alg == Alg::Siphash24 { forms.push(None); }
        let hx = if alg == Alg::Siphash24 { let w = spec::word_of(&mut r.it.d, &m, false); let mut v = hs.clone(); v[3] = r.it.d.vxor(&v[3], &w); v } else { vec![] };
        for f in forms {
            if h0 != (if f.is_some() { &hs } else { &hx })[..] { continue; }
            let was = r.it.d.coarse;
            r.it.d.coarse = false;
            let want = if f.is_some() { if alg == Alg::Siphash24 { absorb(&mut r.it.d, alg, h0.clone(), &m) } else { spec::compress(&mut r.it.d, alg, &h0, &m, &mut None) } } else { let mut v = h0.clone(); spec::sip_rounds2(&mut r.it.d, &mut v); v };
            r.it.d.coarse = was;
            if want == h1 {
                // the copies of an inline function in other crates have the same symbol
                let sm = std::rc::Rc::new(crate::interp::Summ { alg, harg, h: rel.clone(), be: lay.be, block: f });
                let p = r.it.p.clone();
                for (i, x) in p.funcs.iter().enumerate() { if x.name == p.funcs[fid].name { r.it.summ.insert(i, sm.clone()); } }
                r.it.d.apps_on = true;
                r.reset();
                return Ok(true);
            }
        }
    }
    r.reset();
    Ok(false)
}

/// Lengths beyond what is followed block by block.
pub fn long_lengths(alg: Alg, deep: bool, extra: &[usize]) -> Vec<usize> {
    let b = alg.block();
    let mut v: Vec<usize> = vec![65536 + 2 * b + 3];
    if deep { v.extend([4096, 8192, 16384 + 1, 32768 + 7, 65535, 65536, 65536 + b, 2 * 65536 + 5, 3 * 65536 + b - 1, (1 << 20) - 1, (1 << 20) + 9]); }
    v.extend(extra.iter().filter(|x| **x > 1024));
    v.sort();
    v.dedup();
    v
}
/// A message of arbitrary bytes; of a very long one only every 61st and the last bytes are arbitrary.
fn long_message(r: &mut Run, n: usize) -> Vec<Val> {
    if n <= 150_000 { return r.fresh_bytes("m", n); }
    let mut x = 0x2545f491u32;
    (0..n).map(|i| if i % 61 == 0 || i + 200 > n { r.it.d.fresh(&format!("m[{i}]"), 8, SECRET) } else { x = x.wrapping_mul(1664525).wrapping_add(1013904223); Val::I(8, (x >> 24) as u64) }).collect()
}
/// Long single calls, with the block function summarised.
fn one_of<'a>(want: &'a [Vec<Val>], got: &[Val]) -> &'a [Val] { want.iter().find(|w| w[..] == *got).unwrap_or(&want[0]) }
pub fn long(cfg: &str, e: Eng, ls: &[usize], writers: bool) -> Vec<Task> {
    let mut t = vec![];
    let sip = e.alg == Alg::Siphash24;
    for n in ls.to_vec() { for rs in if sip { vec![vec![0usize], vec![3]] } else { vec![vec![0, 3]] } {
        if sip && e.kind == Kind::Plain && rs[0] != 0 { continue; }
        t.push(Task::new(cfg, format!("{}: one call with {n} bytes after {rs:?}", name_of(&e)), move |r| {
            // without a summary the blocks are followed one by one
            if !summarise(r, e.alg)? && n > 8192 { return Ok(()); }
            let nm = name_of(&e);
            let s = e.start(r)?;
            let m = long_message(r, n + 3);
            for r0 in rs {
                r.reset();
                let c = e.copy_of(r, &s, s.e);
                e.input(r, c, &m[..r0])?;
                let forms: Vec<String> = if writers { ["bwrite", "swrite", "bwriteall", "swriteall"].iter().map(|f| format!("w_{}_{f}", e.pre)).collect() } else { vec![String::new()] };
                let len = u64v(s.l0 + (r0 + n) as u64);
                let want = e.finish_forms(r, &s, &s.h0, &m[..r0 + n], &len);
                for f in forms {
                    r.reset();
                    let x = e.copy_of(r, &s, c);
                    if f.is_empty() { e.input(r, x, &m[r0..r0 + n])?; } else {
                        let all = f.ends_with("all");
                        if r.it.p.find(&f).is_none() || all && r0 != 0 { continue; }
                        let a = slice(r, &m[r0..r0 + n], "data");
                        let cnt = r.it.alloc(8, 8, "count");
                        let mut args = vec![u64v(x), a[0].clone(), a[1].clone()];
                        if !all { args.push(u64v(cnt)); }
                        let ok = r.call(&f, &args)?.ok_or("no value")?;
                        r.same_bit(&format!("{f}: succeeds"), &ok, T);
                        if r.it.d.as_const(&ok) != Some(1) { continue; }
                        if !all {
                            let k = r.it.get(cnt, 8);
                            let k = r.it.d.concat(&k);
                            r.same1(&format!("{f}: reports {n} bytes"), &k, &u64v(n as u64));
                        }
                    }
                    let nb = e.nbytes(r, x)?;
                    r.same1(&format!("{nm}: byte count after {r0} bytes and a chunk of {n}"), &nb, &len);
                    let got = e.finalize(r, x)?;
                    r.same(&format!("{nm}: digest after {r0} bytes and a chunk of {n} {f}"), &got, one_of(&want, &got));
                }
                if r0 == 0 && !writers && matches!(e.kind, Kind::Plain | Kind::Tag(_)) {
                    for f in ["hash", "ehash", "chunks1"] {
                        if r.it.p.find(&e.f(f)).is_none() { continue; }
                        r.reset();
                        let a = slice(r, &m[..n], "message");
                        let out = r.it.alloc(e.alg.dlen(), 1, "digest");
                        r.call(&e.f(f), &[a[0].clone(), a[1].clone(), u64v(out)])?;
                        let got = r.it.get(out, e.alg.dlen());
                        r.same(&format!("{nm}: digest of every {n}-byte message ({})", e.f(f)), &got, one_of(&want, &got));
                    }
                }
                if r0 == 0 && !writers { if let Some((k0, k1)) = s.keys.clone() {
                    r.reset();
                    let a = slice(r, &m[..n], "message");
                    let out = r.it.alloc(8, 1, "digest");
                    r.call("h_sip_hashkeys", &[k0.clone(), k1.clone(), a[0].clone(), a[1].clone(), u64v(out)])?;
                    let got = r.it.get(out, 8);
                    r.same(&format!("hash_with_keys of every {n}-byte message"), &got, one_of(&want, &got));
                    r.reset();
                    let got = r.call("h_sip_hashu64", &[k0, k1, a[0].clone(), a[1].clone()])?.ok_or("no value")?;
                    let got = spec::bytes_of(&mut r.it.d, &got, false);
                    r.same(&format!("hash_to_u64_with_keys of every {n}-byte message"), &got, one_of(&want, &got));
                } }
            }
            Ok(())
        }));
    } }
    t
}
/// Messages of any length in one call: the loop over their blocks is entered, and left again at a late block from an
/// arbitrary chaining value (see `Accel`).
pub fn huge_lengths(deep: bool) -> Vec<u64> {
    let mut v = vec![(1 << 21) + 56, (1 << 24) + 9, (1 << 29) + 61, (1 << 32) + (1 << 20) + 3];
    if deep { v.extend([(1 << 21) - 1, (1 << 28) + 64, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 119, (1 << 33) + 120]); }
    v
}
/// The definition's result from where the analysis of the loop went on. Err: the loop was not recognised.
fn huge_end(r: &mut Run, what: &str, n: u64) -> R<(Vec<Val>, Vec<Val>)> {
    let a = r.it.accel.take().ok_or("no loop")?;
    let seen = r.it.lazy_max;
    if seen < n {
        if r.functional() { r.wrong("the result depends on the whole message", what, &format!("{what}: nothing after the first {seen} of {n} bytes is read")); }
        return Err("stop".into());
    }
    if a.jumps == 0 || a.total - a.at > 64 { return Err("the loop over the blocks is not of the recognised form".into()); }
    let start = a.at * a.alg.block();
    let hl = a.head.len();
    let mut tail = a.head[start.min(hl)..].to_vec();
    let off = start.max(hl) - hl;
    tail.extend(r.it.lazy_get(a.msg, off as u64, n as usize - off));
    Ok((a.h.clone(), tail))
}
pub fn huge(cfg: &str, e: Eng, deep: bool, writers: bool) -> Vec<Task> {
    let mut t = vec![];
    for n in huge_lengths(deep) { for r0 in [0usize, 3] {
        if e.alg == Alg::Siphash24 && e.kind == Kind::Plain && r0 != 0 { continue; }
        t.push(Task::new(cfg, format!("{}: one call with {n} bytes after {r0}", name_of(&e)), move |r| {
            if !summarise(r, e.alg)? { return Ok(()); }
            r.rough(false);
            let nm = name_of(&e);
            let s = e.start(r)?;
            let m0 = r.fresh_bytes("m", r0);
            let c = e.copy_of(r, &s, s.e);
            e.input(r, c, &m0)?;
            let len = u64v(s.l0 + r0 as u64 + n);
            let forms: Vec<String> = if writers { ["bwrite", "swrite", "bwriteall", "swriteall"].iter().map(|f| format!("w_{}_{f}", e.pre)).collect() } else { vec![e.f("input")] };
            for f in forms {
                if r.it.p.find(&f).is_none() { continue; }
                r.reset();
                let x = e.copy_of(r, &s, c);
                let p = r.it.lazy_in(n, 1, "message");
                r.it.lazy_max = 0;
                r.it.accelerate(e.alg, s.h0.clone(), m0.clone(), p, n);
                let all = f.ends_with("all");
                let cnt = r.it.alloc(8, 8, "count");
                let mut args = vec![u64v(x), u64v(p), u64v(n)];
                if writers && !all { args.push(u64v(cnt)); }
                let ok = r.call(&f, &args)?;
                if writers {
                    let ok = ok.ok_or("no value")?;
                    r.same_bit(&format!("{f}: succeeds"), &ok, T);
                    if r.it.d.as_const(&ok) != Some(1) { continue; }
                    if !all {
                        let k = r.it.get(cnt, 8);
                        let k = r.it.d.concat(&k);
                        r.same1(&format!("{f}: reports {n} bytes"), &k, &u64v(n));
                    }
                }
                let (h, tail) = huge_end(r, &format!("{nm} ({f})"), n)?;
                let nb = e.nbytes(r, x)?;
                r.same1(&format!("{nm}: byte count after {r0} bytes and a chunk of {n}"), &nb, &len);
                let got = e.finalize(r, x)?;
                let want = e.finish_forms(r, &s, &h, &tail, &len);
                r.same(&format!("{nm}: digest after {r0} bytes and a chunk of {n} {f}"), &got, one_of(&want, &got));
            }
            Ok(())
        }));
    } }
    t
}
/// The same for the hash function that is usable in constants.
pub fn huge_const(cfg: &str, _deep: bool) -> Vec<Task> {
    huge_lengths(true).into_iter().chain([8253, (1 << 21) + 5]).map(|n| Task::new(cfg, format!("const_hash of {n} bytes"), move |r| {
        r.rough(false);
        let p = r.it.lazy_in(n, 1, "message");
        r.it.lazy_max = 0;
        let h0 = spec::init(&mut r.it.d, Alg::Sha256);
        r.it.accelerate(Alg::Sha256, h0, vec![], p, n);
        let out = r.it.alloc(32, 1, "digest");
        r.call("h_consthash", &[u64v(p), u64v(n), u64v(out)])?;
        let got = r.it.get(out, 32);
        let (h, tail) = huge_end(r, "const_hash", n)?;
        let want = spec::finish(&mut r.it.d, Alg::Sha256, h, &tail, &u64v(n), &mut None);
        r.same(&format!("const_hash of every {n}-byte input"), &got, &want);
        Ok(())
    })).collect()
}
/// HMAC with long keys, with the block function summarised.
pub fn long_keys(cfg: &str, alg: Alg, ls: &[usize]) -> Vec<Task> {
    ls.iter().map(|&n| Task::new(cfg, format!("hmac-{}: keys of {n} bytes", alg.name()), move |r| {
        if !summarise(r, alg)? && n > 8192 { return Ok(()); }
        let e = hmac(alg, n);
        let s = e.start(r)?;
        let m = r.fresh_bytes("m", 9);
        e.input(r, s.e, &m)?;
        let len = u64v(s.l0 + 9);
        let mut want = e.finish_forms(r, &s, &s.h0, &m, &len);
        if want.len() > 1 {
            // the digest of the key has two forms as well
            r.it.d.sip_d_apps = true;
            let d = &mut r.it.d;
            let (i, o) = hmac_pads(d, alg, &s.key);
            let h = spec::init(d, alg);
            let mut s = Started { key: vec![], keys: None, h0: absorb(d, alg, h.clone(), &i), ..s };
            s.outer = Some(absorb(d, alg, h, &o));
            want.push(e.finish(r, &s, &s.h0, &m, &len));
            r.it.d.sip_d_apps = false;
        }
        let got = e.finalize(r, s.e)?;
        r.same(&format!("hmac-{} of every {n}-byte key and 9-byte message", alg.name()), &got, one_of(&want, &got));
        Ok(())
    })).collect()
}

// ---------------------------------------------------------------- lengths
pub fn boundary(alg: Alg) -> Vec<usize> {
    let b = alg.block();
    if alg == Alg::Siphash24 { return (0..=33).chain([39, 40, 41, 63, 64, 65]).collect(); }
    let lb = if b == 128 { 16 } else { 8 };
    let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, b / 2 - 1, b / 2, b / 2 + 1];
    for k in [b, 2 * b] { for o in [-(lb as i64) - 2, -(lb as i64) - 1, -(lb as i64), -(lb as i64) + 1, -2, -1, 0, 1, 2] { v.push((k as i64 + o) as usize); } }
    v.extend([3 * b - 1, 3 * b, 3 * b + 1, 4 * b + 3, 5 * b]);
    v.sort();
    v.dedup();
    v
}
pub fn lengths(alg: Alg, deep: bool, extra: &[usize]) -> Vec<usize> {
    let b = alg.block();
    let mut v = boundary(alg);
    v.extend(0..=(if alg == Alg::Siphash24 { if deep { 300 } else { 80 } } else if deep { 3 * b + 1 } else { b + 8 }));
    v.extend([255, 256, 257, 300, 511, 512, 513]);
    if deep { v.extend([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]); }
    v.extend(extra.iter().filter(|x| **x <= 1024));
    v.sort();
    v.dedup();
    v
}

fn group<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> { v.chunks(n).map(|c| c.to_vec()).collect() }
/// Groups of at most `n` lengths and about `sum` bytes.
fn group_len(v: &[usize], n: usize, sum: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    for &x in v {
        match out.last_mut() { Some(l) if l.len() < n && l.iter().sum::<usize>() + x <= sum => l.push(x), _ => out.push(vec![x]) }
    }
    out
}

// ---------------------------------------------------------------- suites
/// One-call hashing for all contents of the given lengths.
pub fn oneshot(cfg: &str, algs: &[Alg], deep: bool, extra: &[usize]) -> Vec<Task> {
    let mut t = vec![];
    for &a in algs {
        let ls = lengths(a, deep, extra);
        for (gi, g) in group_len(&ls, 12, 1000).into_iter().enumerate() {
            let e = plain(a);
            t.push(Task::new(cfg, format!("{} one call, lengths {:?}", a.name(), g), move |r| {
                for n in g {
                    r.reset();
                    let m = r.fresh_bytes("m", n);
                    let want = spec::hash(&mut r.it.d, a, &m, &mut None);
                    for f in ["hash", "ehash"] {
                        if f == "ehash" && gi % 3 != 0 && n % 8 != 7 { continue; }
                        r.reset();
                        let s = slice(r, &m, "message");
                        let out = r.it.alloc(a.dlen(), 1, "digest");
                        r.call(&e.f(f), &[s[0].clone(), s[1].clone(), u64v(out)])?;
                        let got = r.it.get(out, a.dlen());
                        r.same(&format!("{} digest of every {n}-byte message ({})", a.name(), e.f(f)), &got, &want);
                    }
                }
                Ok(())
            }));
        }
    }
    t
}

/// Induction: start state, block step from any state, and finalisation from any state at each residue.
pub fn induction(cfg: &str, e: Eng, residues: &[usize], finals: &'static [&'static str], bits: u32) -> Vec<Task> {
    let mut t = vec![];
    t.push(Task::new(cfg, format!("{}: block step from any state", name_of(&e)), move |r| {
        let nm = name_of(&e);
        let (s, lay) = e.open(r)?;
        let (st, h, q) = e.any_state(r, &s, &lay, bits);
        // one block, two blocks
        for k in [1usize, 2] {
            r.reset();
            let c = e.copy_of(r, &s, st);
            let m = r.fresh_bytes("b", k * e.bs());
            e.input(r, c, &m)?;
            let h2 = absorb(&mut r.it.d, e.alg, h.clone(), &m);
            let q2 = r.it.d.add(&q, &u64v(k as u64));
            let x = e.state(r, &s, &lay, &h2, &q2, "other");
            let ok = agree(r, &s, &lay, c, x);
            if !ok {
                // not the recognised shape: decide by what can be observed
                let got = e.finalize(r, c)?;
                let len = e.len_of(r, &s, &q, (k * e.bs()) as u64);
                let want = e.finish(r, &s, &h2, &[], &len);
                let before = r.vio.len();
                r.same(&format!("{nm}: digest after {k} more blocks from any state"), &got, &want);
                if r.vio.len() == before && r.functional() { r.obl += 1; r.und.push(format!("{nm}: state after {k} blocks has another shape")); }
            } else if r.functional() { r.obl += 1; r.dis += 1; }
        }
        Ok(())
    }));
    for g in group(residues, 8) {
        t.push(Task::new(cfg, format!("{}: finalisation from any state, residues {g:?}", name_of(&e)), move |r| {
            let nm = name_of(&e);
            let (s, lay) = e.open(r)?;
            let (st, h, q) = e.any_state(r, &s, &lay, bits);
            let m = r.fresh_bytes("m", e.bs());
            for n in g {
                r.reset();
                let c = e.copy_of(r, &s, st);
                e.input(r, c, &m[..n])?;
                let len = e.len_of(r, &s, &q, n as u64);
                let want = e.finish(r, &s, &h, &m[..n], &len);
                for f in finals {
                    if *f != finals[0] && n % 4 != 3 { continue; }
                    r.reset();
                    let c2 = e.copy_of(r, &s, c);
                    let got = if *f == "engu64" {
                        let v = r.call("h_sip_engu64", &[u64v(c2)])?.ok_or("no value")?;
                        spec::bytes_of(&mut r.it.d, &v, false)
                    } else { e.finalize_by(r, c2, f)? };
                    r.same(&format!("{nm}: {f} after any number of blocks and {n} bytes"), &got, &want);
                    r.it.free(c2);
                }
                r.reset();
                let nb = e.nbytes(r, c)?;
                let _ = nb;
                r.it.free(c);
            }
            Ok(())
        }));
    }
    t
}

/// Memory of two engines agrees except where the content cannot matter.
fn agree(r: &mut Run, s: &Started, lay: &Lay, a: u64, b: u64) -> bool {
    let (x, y) = (r.it.get_raw(a, s.size), r.it.get_raw(b, s.size));
    (0..s.size).all(|i| lay.cls[i] == Cls::Stale || x[i] == y[i])
}

pub fn name_of(e: &Eng) -> String {
    match e.kind {
        Kind::Plain => e.alg.name().into(),
        Kind::Keys => "siphash24 with keys".into(),
        Kind::Hmac(k) => format!("hmac-{} with a {k}-byte key", e.alg.name()),
        Kind::HmacTag(k, t) => format!("hmac-sha256t({}) with a {k}-byte key", String::from_utf8_lossy(t)),
        Kind::Tag(t) => format!("sha256t({})", String::from_utf8_lossy(t)),
    }
}

/// Every way of feeding: from every canonical state with `r0` pending bytes, a chunk of `n` leads to
/// the canonical state of the concatenation.
pub fn feeding(cfg: &str, e: Eng, deep: bool, extra: &[usize], res: &[usize]) -> Vec<Task> {
    let bs = e.bs();
    let nm = name_of(&e);
    let mut t = vec![];
    for g in group(res, if bs == 8 { 2 } else { 4 }) {
        let nm = nm.clone();
        let ex: Vec<usize> = extra.iter().copied().filter(|x| *x <= 1024).collect();
        t.push(Task::new(cfg, format!("{nm}: chunks after {g:?} pending bytes"), move |r| {
            let (s, lay) = e.open(r)?;
            let (st, h, q) = e.any_state(r, &s, &lay, 60);
            let base = e.nbytes(r, s.e)?;
            for r0 in g {
                let mut ns: Vec<usize> = vec![0, 1, 2, 3, bs - r0 - 1, bs - r0, bs - r0 + 1, bs - r0 + 2, 2 * bs - r0 - 1, 2 * bs - r0, 2 * bs - r0 + 1, bs, 3 * bs - r0, 3 * bs - r0 + 1];
                if bs == 8 { ns.extend(0..=(if deep { 64 } else { 34 })); } else { ns.extend([4, 7, 8, 9, bs / 2 + 1, bs - 1, bs + 1]); }
                if deep { ns.extend([5, 6, 10, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 2 * bs, 2 * bs - 1, 2 * bs + 1, 5 * bs - r0 + 3]); }
                if r0 == 0 || r0 == 1 || r0 == bs - 1 { ns.extend(&ex); ns.extend([4 * bs, 4 * bs - r0 + 1]); }
                ns.sort();
                ns.dedup();
                let m = r.fresh_bytes("m", r0 + ns.last().unwrap());
                r.reset();
                let c0 = e.copy_of(r, &s, st);
                e.input(r, c0, &m[..r0])?;
                // absorbed states, computed once
                let mut hs = vec![h.clone()];
                for n in ns {
                    r.reset();
                    let c = e.copy_of(r, &s, c0);
                    e.input(r, c, &m[r0..r0 + n])?;
                    if !r.functional() { r.it.free(c); continue; }
                    let tot = r0 + n;
                    let k = tot / bs;
                    while hs.len() <= k { let i = hs.len() - 1; let x = absorb(&mut r.it.d, e.alg, hs[i].clone(), &m[i * bs..(i + 1) * bs]); hs.push(x); }
                    let q2 = r.it.d.add(&q, &u64v(k as u64));
                    let x = e.state(r, &s, &lay, &hs[k], &q2, &format!("other{r0}.{n}."));
                    r.reset();
                    e.input(r, x, &m[k * bs..tot])?;
                    let (a, b) = (r.it.get_raw(c, s.size), r.it.get_raw(x, s.size));
                    let stale: Vec<bool> = (0..s.size).map(|i| lay.cls[i] == Cls::Stale && is_input(r, b[i], &format!("other{r0}.{n}."))).collect();
                    let ok = (0..s.size).all(|i| a[i] == b[i] || stale[i]);
                    let nb = e.nbytes(r, c)?;
                    let add = r.it.d.shl_k(&q, bs.trailing_zeros());
                    let want_nb = r.it.d.add(&base, &add);
                    let want_nb = r.it.d.add(&want_nb, &u64v(tot as u64));
                    r.same1(&format!("{nm}: byte count after {r0} and {n} more bytes"), &nb, &want_nb);
                    if ok { r.obl += 1; r.dis += 1; }
                    else {
                        let got = e.finalize(r, c)?;
                        let len = e.len_of(r, &s, &q, tot as u64);
                        let want = e.finish(r, &s, &hs[k], &m[k * bs..tot], &len);
                        let before = r.vio.len();
                        r.same(&format!("{nm}: digest after {r0} pending bytes and a chunk of {n}"), &got, &want);
                        if r.vio.len() == before && r.functional() { r.obl += 1; r.und.push(format!("{nm}: {r0} then {n} bytes: same digest but a state of another shape")); }
                    }
                    r.it.free(c);
                    r.it.free(x);
                }
            }
            Ok(())
        }));
    }
    t
}
fn is_input(r: &Run, enc: u32, prefix: &str) -> bool {
    if enc < 257 { return enc == 256; }
    let b = &r.it.d.words[(enc - 257) as usize];
    b.iter().all(|x| r.it.d.bit_input(*x).map_or(false, |n| n.starts_with(prefix)))
}

/// Digests fed in three chunks, clones, chunk helper; from the start state.
pub fn chunks(cfg: &str, e: Eng, deep: bool) -> Vec<Task> {
    let bs = e.bs();
    let nm = name_of(&e);
    let mut cuts: Vec<(usize, usize, usize)> = vec![(0, 0, 0), (1, 0, 2), (bs - 1, 1, 1), (bs - 1, 2, bs), (1, bs - 1, 1), (bs, bs, 1), (bs + 1, bs - 1, 0), (3, bs, bs - 3), (0, 2 * bs + 1, 5), (bs / 2, bs / 2, bs / 2)];
    if deep { for a in [2, 5, bs - 2, bs + 3] { for b in [1, bs - a % bs, bs - a % bs + 1, 2 * bs] { cuts.push((a, b, 7)); } } }
    let mut t = vec![];
    for g in group(&cuts, 5) {
        let nm = nm.clone();
        t.push(Task::new(cfg, format!("{nm}: cut into {g:?}"), move |r| {
            for (a, b, c) in g {
                r.reset();
                let s = e.start(r)?;
                let m = r.fresh_bytes("m", a + b + c);
                let len = u64v(s.l0 + (a + b + c) as u64);
                let want = e.finish(r, &s, &s.h0, &m, &len);
                // one by one, cloning after the first chunk
                let x = s.e;
                e.input(r, x, &m[..a])?;
                let cl = r.it.alloc(s.size, s.align, "clone");
                r.call(&e.f("clone"), &[u64v(x), u64v(cl)])?;
                let keep = r.it.get_raw(x, s.size);
                let other = r.fresh_bytes("x", 2 * bs + 3);
                e.input(r, cl, &other[..bs + 3])?;
                let after = r.it.get_raw(x, s.size);
                r.must(&format!("{nm}: using a clone leaves the original alone"), keep == after, "the original's memory changed".into());
                let cl2 = r.it.alloc(s.size, s.align, "clone");
                r.call(&e.f("clone"), &[u64v(x), u64v(cl2)])?;
                // clone_from over an engine with other content
                let cl3 = r.it.alloc(s.size, s.align, "clone");
                let raw = r.it.get_raw(cl, s.size);
                r.it.put_raw(cl3, &raw);
                r.call(&e.f("clonefrom"), &[u64v(cl3), u64v(x)])?;
                for (what, y) in [("original", x), ("clone", cl2), ("clone_from target", cl3)] {
                    r.reset();
                    e.input(r, y, &m[a..a + b])?;
                    e.input(r, y, &m[a + b..])?;
                    let nb = e.nbytes(r, y)?;
                    r.same1(&format!("{nm}: byte count of the {what} after {a}+{b}+{c}"), &nb, &len);
                    let got = e.finalize(r, y)?;
                    r.same(&format!("{nm}: digest of the {what} cut {a}+{b}+{c}"), &got, &want);
                }
                let _ = cl;
                // chunk helper (unkeyed start)
                if matches!(e.kind, Kind::Plain | Kind::Tag(_) | Kind::Hmac(0) | Kind::HmacTag(0, _)) {
                    r.reset();
                    let (p, q, z) = (slice(r, &m[..a], "chunk"), slice(r, &m[a..a + b], "chunk"), slice(r, &m[a + b..], "chunk"));
                    let out = r.it.alloc(e.alg.dlen(), 1, "digest");
                    let args: Vec<Val> = p.iter().chain(&q).chain(&z).cloned().chain([u64v(out)]).collect();
                    r.call(&e.f("chunks3"), &args)?;
                    let got = r.it.get(out, e.alg.dlen());
                    r.same(&format!("{nm}: hash_byte_chunks cut {a}+{b}+{c}"), &got, &want);
                    r.reset();
                    let w = slice(r, &m, "message");
                    for f in ["chunks1", "ehash"] {
                        let out = r.it.alloc(e.alg.dlen(), 1, "digest");
                        r.call(&e.f(f), &[w[0].clone(), w[1].clone(), u64v(out)])?;
                        let got = r.it.get(out, e.alg.dlen());
                        r.same(&format!("{nm}: {f} of {} bytes", a + b + c), &got, &want);
                    }
                    if a + b + c == 0 {
                        let out = r.it.alloc(e.alg.dlen(), 1, "digest");
                        r.call(&e.f("chunks0"), &[u64v(out)])?;
                        let got = r.it.get(out, e.alg.dlen());
                        r.same(&format!("{nm}: hash_byte_chunks of nothing"), &got, &want);
                    }
                }
            }
            Ok(())
        }));
    }
    t
}

/// Midstate export and import.
pub fn midstates(cfg: &str, e: Eng, deep: bool) -> Vec<Task> {
    let bs = e.bs();
    let nm = name_of(&e);
    let mut t = vec![];
    let mut conts: Vec<usize> = if bs == 8 { (0..=20).collect() } else { vec![0, 1, 2, bs / 2, bs - 18, bs - 17, bs - 16, bs - 10, bs - 9, bs - 8, bs - 1, bs, bs + 1, 2 * bs + 3] };
    if deep { conts.extend(0..bs + 4); conts.sort(); conts.dedup(); }
    // resume from any state
    for g in group(&conts, 8) {
        let nm = nm.clone();
        t.push(Task::new(cfg, format!("{nm}: resumed from any midstate, then {g:?} bytes"), move |r| {
            let (s, lay) = e.open(r)?;
            let (st, h, q) = e.any_state(r, &s, &lay, 60);
            let (ms, ma) = (r.konst(&format!("c_{}_msize", e.pre))? as usize, 8);
            let mid = r.it.alloc(ms, ma, "midstate");
            r.call(&e.f("midstate"), &[u64v(st), u64v(mid)])?;
            let nb = e.nbytes(r, st)?;
            let res = r.it.alloc(s.size, s.align, "resumed engine");
            let keep = r.it.get_raw(mid, ms);
            r.call(&e.f("frommid"), &[u64v(mid), nb.clone(), u64v(res)])?;
            // the same count and midstate again
            let nb2 = e.nbytes(r, res)?;
            r.same1(&format!("{nm}: byte count of the resumed engine"), &nb2, &nb);
            let mid2 = r.it.alloc(ms, ma, "midstate");
            r.call(&e.f("midstate"), &[u64v(res), u64v(mid2)])?;
            r.it.put_raw(mid, &keep);
            let (a, b) = (r.it.get(mid, ms), r.it.get(mid2, ms));
            r.same(&format!("{nm}: midstate of the resumed engine"), &b, &a);
            let m = r.fresh_bytes("m", 2 * bs + 32);
            for n in g {
                r.reset();
                let c = e.copy_of(r, &s, res);
                e.input(r, c, &m[..n])?;
                let nb3 = e.nbytes(r, c)?;
                let x = r.it.d.add(&nb, &u64v(n as u64));
                r.same1(&format!("{nm}: byte count {n} bytes after resuming"), &nb3, &x);
                let got = e.finalize(r, c)?;
                let len = e.len_of(r, &s, &q, n as u64);
                let want = e.finish(r, &s, &h, &m[..n], &len);
                r.same(&format!("{nm}: digest {n} bytes after resuming"), &got, &want);
                r.it.free(c);
            }
            Ok(())
        }));
    }
    // from the start state through the public interface only
    t.push(Task::new(cfg, format!("{nm}: resumed after 0, 1 and 2 blocks"), move |r| {
        for k in 0..=2usize {
            r.reset();
            let s = e.start(r)?;
            let m = r.fresh_bytes("m", k * bs + 5);
            e.input(r, s.e, &m[..k * bs])?;
            let ms = r.konst(&format!("c_{}_msize", e.pre))? as usize;
            let mid = r.it.alloc(ms, 8, "midstate");
            r.call(&e.f("midstate"), &[u64v(s.e), u64v(mid)])?;
            let nb = e.nbytes(r, s.e)?;
            let res = r.it.alloc(s.size, s.align, "resumed engine");
            r.call(&e.f("frommid"), &[u64v(mid), nb, u64v(res)])?;
            let len = u64v(s.l0 + (k * bs + 5) as u64);
            let want = e.finish(r, &s, &s.h0, &m, &len);
            for (w, x) in [("resumed", res), ("original", s.e)] {
                r.reset();
                e.input(r, x, &m[k * bs..])?;
                let n2 = e.nbytes(r, x)?;
                r.same1(&format!("{nm}: byte count of the {w} engine after {k} blocks"), &n2, &len);
                let got = e.finalize(r, x)?;
                r.same(&format!("{nm}: digest of the {w} engine after {k} blocks"), &got, &want);
            }
        }
        Ok(())
    }));
    // any length
    if e.alg != Alg::Siphash24 {
        let nm = name_of(&e);
        t.push(Task::new(cfg, format!("{nm}: resumed with any length"), move |r| {
            let s = e.start(r)?;
            let ms = r.konst(&format!("c_{}_msize", e.pre))? as usize;
            let mb = r.fresh_bytes("midstate", ms);
            let mid = r.it.alloc(ms, 8, "midstate");
            r.it.put(mid, &mb);
            let len = r.it.d.fresh("length", 64, PUBLIC);
            let lowv = r.it.d.extract(&len, 0, bs.trailing_zeros());
            let z = r.it.d.konst(bs.trailing_zeros(), 0);
            let al = r.it.d.eq(&lowv, &z);
            r.may_panic = r.it.d.not(al);
            let res = r.it.alloc(s.size, s.align, "resumed engine");
            r.call(&e.f("frommid"), &[u64v(mid), len.clone(), u64v(res)])?;
            let n = e.nbytes(r, res)?;
            r.same1(&format!("{nm}: byte count after resuming with any aligned length"), &n, &len);
            Ok(())
        }));
    }
    t
}

/// RFC 2104 for keys and messages of the given lengths.
pub fn hmacs(cfg: &str, alg: Alg, deep: bool) -> Vec<Task> { hmacs_of(cfg, alg, alg.name(), move |k| hmac(alg, k), deep) }
pub fn hmacs_tag(cfg: &str, deep: bool) -> Vec<Task> { hmacs_of(cfg, Alg::Sha256, "sha256t", htag, deep) }
fn hmacs_of(cfg: &str, alg: Alg, nm: &'static str, mk: impl Fn(usize) -> Eng + Copy + Send + 'static, deep: bool) -> Vec<Task> {
    let hb = hblock(alg);
    let bs = alg.block();
    let mut keys = vec![0, 1, 2, 7, 20, hb / 2, hb - 2, hb - 1, hb, hb + 1, hb + 2, 2 * hb, 2 * hb + 3];
    if deep { keys.extend(0..=2 * hb + 8); keys.extend([300, 500]); }
    keys.sort();
    keys.dedup();
    let msgs = [0, 1, 5, bs.saturating_sub(9), bs - 1, bs, bs + 1, 2 * bs + 3];
    let mut t = vec![];
    for g in group_len(&keys, 2, 300) {
        t.push(Task::new(cfg, format!("hmac-{} key lengths {g:?}", nm), move |r| {
            for k in g {
                let e = mk(k);
                r.reset();
                let s = e.start(r)?;
                let ml: Vec<usize> = if k == hb || k == hb + 1 || k == 0 || deep { msgs.to_vec() } else { vec![msgs[k % 8], msgs[(k / 8 + 3) % 8]] };
                for n in ml {
                    r.reset();
                    let m = r.fresh_bytes("m", n);
                    let c = e.copy_of(r, &s, s.e);
                    e.input(r, c, &m)?;
                    let len = u64v(s.l0 + n as u64);
                    let want = e.finish(r, &s, &s.h0, &m, &len);
                    let c2 = e.copy_of(r, &s, c);
                    let got = e.finalize(r, c)?;
                    r.same(&format!("hmac-{} of every {k}-byte key and {n}-byte message", nm), &got, &want);
                    r.reset();
                    let got = e.finalize_by(r, c2, "fromengine")?;
                    r.same(&format!("hmac-{} (Hash::from_engine) of every {k}-byte key and {n}-byte message", nm), &got, &want);
                }
            }
            Ok(())
        }));
    }
    t.push(Task::new(cfg, format!("hmac-{} default engines", nm), move |r| {
        let e = mk(0);
        for by in ["default", "hengine", "new"] {
            r.reset();
            let s = if by == "new" {
                let s = e.start(r)?;
                r.call(&format!("h_{}_new", e.pre), &[u64v(s.e)])?;
                s
            } else { e.start_by(r, by)? };
            let m = r.fresh_bytes("m", 11);
            e.input(r, s.e, &m)?;
            let len = u64v(s.l0 + 11);
            let want = e.finish(r, &s, &s.h0, &m, &len);
            let got = e.finalize(r, s.e)?;
            r.same(&format!("hmac-{} engine from {by} has the empty key", nm), &got, &want);
        }
        Ok(())
    }));
    t
}

pub fn siphash(cfg: &str, deep: bool, extra: &[usize]) -> Vec<Task> {
    let a = Alg::Siphash24;
    let ls = lengths(a, deep, extra);
    let mut t = vec![];
    for g in group_len(&ls, 16, 800) {
        t.push(Task::new(cfg, format!("siphash24 with keys, lengths {g:?}"), move |r| {
            for n in g {
                r.reset();
                let (k0, k1) = (r.it.d.fresh("k0", 64, SECRET), r.it.d.fresh("k1", 64, SECRET));
                let m = r.fresh_bytes("m", n);
                let h = spec::sip_init(&mut r.it.d, &k0, &k1);
                let v = spec::sip_finish(&mut r.it.d, h, &m, &u64v(n as u64));
                let want = spec::bytes_of(&mut r.it.d, &v, false);
                let s = slice(r, &m, "message");
                let out = r.it.alloc(8, 1, "digest");
                r.call("h_sip_hashkeys", &[k0.clone(), k1.clone(), s[0].clone(), s[1].clone(), u64v(out)])?;
                let got = r.it.get(out, 8);
                r.same(&format!("hash_with_keys of every {n}-byte message"), &got, &want);
                r.reset();
                let got = r.call("h_sip_hashu64", &[k0.clone(), k1.clone(), s[0].clone(), s[1].clone()])?.ok_or("no value")?;
                r.same1(&format!("hash_to_u64_with_keys of every {n}-byte message"), &got, &v);
                if n < 20 {
                    // engine with keys, byte by byte
                    r.reset();
                    let e = Eng { pre: "siphash24", alg: a, kind: Kind::Keys };
                    let en = e.place(r)?;
                    r.call("h_sip_withkeys", &[k0.clone(), k1.clone(), u64v(en)])?;
                    for b in &m { e.input(r, en, &[b.clone()])?; }
                    let ko = r.it.alloc(16, 8, "keys");
                    r.call("h_sip_keys", &[u64v(en), u64v(ko)])?;
                    let got = r.it.get(ko, 16);
                    let mut w = spec::bytes_of(&mut r.it.d, &k0, false);
                    w.extend(spec::bytes_of(&mut r.it.d, &k1, false));
                    r.same("keys() of an engine", &got, &w);
                    let (c1, c2) = { let sz = r.konst("c_siphash24_esize")? as usize; let raw = r.it.get_raw(en, sz); let (a, b) = (e.place(r)?, e.place(r)?); r.it.put_raw(a, &raw); r.it.put_raw(b, &raw); (a, b) };
                    let got = e.finalize(r, en)?;
                    r.same(&format!("keyed engine fed {n} bytes one by one"), &got, &want);
                    let got = r.call("h_sip_engu64", &[u64v(c1)])?.ok_or("no value")?;
                    r.same1(&format!("from_engine_to_u64 fed {n} bytes one by one"), &got, &v);
                    let got = e.finalize_by(r, c2, "fromengine")?;
                    r.same(&format!("from_engine fed {n} bytes one by one"), &got, &want);
                }
            }
            Ok(())
        }));
    }
    t.push(Task::new(cfg, "siphash24 integer forms", |r| {
        let b = r.fresh_bytes("h", 8);
        let p = r.it.bytes_in(&b, 1, "hash");
        let v = r.call("h_sip_asu64", &[u64v(p)])?.ok_or("no value")?;
        let want = spec::word_of(&mut r.it.d, &b, false);
        r.same1("as_u64 reads the bytes little-endian", &v, &want);
        r.reset();
        let x = r.it.d.fresh("v", 64, SECRET);
        let out = r.it.alloc(8, 1, "hash");
        r.call("h_sip_fromu64", &[x.clone(), u64v(out)])?;
        let got = r.it.get(out, 8);
        let want = spec::bytes_of(&mut r.it.d, &x, false);
        r.same("from_u64 writes the bytes little-endian", &got, &want);
        // unkeyed constructors
        for by in ["h_sip_inew", "h_siphash24_new", "h_siphash24_default", "h_siphash24_hengine"] {
            r.reset();
            let e = plain(Alg::Siphash24);
            let en = e.place(r)?;
            r.call(by, &[u64v(en)])?;
            let ko = r.it.alloc(16, 8, "keys");
            r.call("h_sip_keys", &[u64v(en), u64v(ko)])?;
            let got = r.it.get(ko, 16);
            r.same(&format!("{by}: keys are zero"), &got, &kbytes(&[0; 16]));
            let m = r.fresh_bytes("m", 13);
            e.input(r, en, &m)?;
            let got = e.finalize(r, en)?;
            let want = spec::hash(&mut r.it.d, Alg::Siphash24, &m, &mut None);
            r.same(&format!("{by}: digest"), &got, &want);
        }
        Ok(())
    }));
    t
}

/// Tag midstates, const hashing, tagged hashing.
pub fn tagged(cfg: &str, deep: bool, extra: &[usize], what: &str) -> Vec<Task> {
    let mut t = vec![];
    let mut ls: Vec<usize> = if deep { (0..=200).collect() } else { let mut v = boundary(Alg::Sha256); v.extend([10, 20, 30, 40, 50, 51, 52, 53, 54, 57, 58, 59, 60, 61, 100, 110]); v };
    ls.extend(extra.iter().filter(|x| **x < 10_000));
    if what == "" { ls.push(8200); }
    ls.sort();
    ls.dedup();
    for g in group_len(&ls, 8, 1000) {
        t.push(Task::new(cfg, format!("const_hash and hash_tag, lengths {g:?}"), move |r| {
            for n in g {
                r.reset();
                let m = r.fresh_bytes("m", n);
                let s = slice(r, &m, "message");
                let out = r.it.alloc(32, 1, "digest");
                r.call("h_consthash", &[s[0].clone(), s[1].clone(), u64v(out)])?;
                let got = r.it.get(out, 32);
                let want = spec::hash(&mut r.it.d, Alg::Sha256, &m, &mut None);
                r.same(&format!("const_hash of every {n}-byte input"), &got, &want);
                r.reset();
                let out = r.it.alloc(32, 1, "midstate");
                r.call("h_hashtag", &[s[0].clone(), s[1].clone(), u64v(out)])?;
                let got = r.it.get(out, 32);
                let h = tag_state(&mut r.it.d, &m);
                let want = spec::digest_of(&mut r.it.d, Alg::Sha256, &h);
                r.same(&format!("hash_tag of every {n}-byte tag"), &got, &want);
            }
            Ok(())
        }));
    }
    if what == "const" { return t; }
    for i in 0..3 {
        t.push(Task::new(cfg, format!("tagged hash `{}`", TAGS[i].0), move |r| {
            let e = tag(i);
            let h = tag_state(&mut r.it.d, &kbytes(TAGS[i].1));
            // evaluated by the compiler
            let name = format!("c_consttag_{}", ["a", "b", "c"][i]);
            let got = kbytes(&r.it.p.const_bytes(&name).ok_or("constant")?);
            let want = spec::digest_of(&mut r.it.d, Alg::Sha256, &h);
            r.same(&format!("{name}: tag midstate evaluated at compile time"), &got, &want);
            for n in [0usize, 1, 31, 55, 56, 63, 64, 65, 130] {
                let m = r.fresh_bytes("m", n);
                let len = u64v(64 + n as u64);
                let want = spec::finish(&mut r.it.d, Alg::Sha256, h.clone(), &m, &len, &mut None);
                for f in ["hash", "ehash", "chunks1"] {
                    r.reset();
                    let s = slice(r, &m, "message");
                    let out = r.it.alloc(32, 1, "digest");
                    r.call(&e.f(f), &[s[0].clone(), s[1].clone(), u64v(out)])?;
                    let got = r.it.get(out, 32);
                    r.same(&format!("{}: every {n}-byte message", e.f(f)), &got, &want);
                }
                for (by, fin) in [("new", "finalize"), ("default", "fromengine"), ("hengine", "fromengine")] {
                    r.reset();
                    let s = e.start_by(r, by)?;
                    e.input(r, s.e, &m)?;
                    let got = e.finalize_by(r, s.e, fin)?;
                    r.same(&format!("{} + {}: every {n}-byte message", e.f(by), e.f(fin)), &got, &want);
                }
            }
            Ok(())
        }));
    }
    t.push(Task::new(cfg, "tagged engine from any tag midstate", |r| {
        let e = tag(0);
        for n in [0usize, 3, 55, 56, 64, 100] {
            r.reset();
            let mb = r.fresh_bytes("tagmid", 32);
            let h: Vec<Val> = mb.chunks(4).map(|c| spec::word_of(&mut r.it.d, c, true)).collect();
            let mid = r.it.bytes_in(&mb, 1, "midstate");
            let en = e.place(r)?;
            r.call("h_tagmid", &[u64v(mid), u64v(en)])?;
            let m = r.fresh_bytes("m", n);
            e.input(r, en, &m)?;
            let len = u64v(64 + n as u64);
            let want = spec::finish(&mut r.it.d, Alg::Sha256, h, &m, &len, &mut None);
            let got = e.finalize_by(r, en, "fromengine")?;
            r.same(&format!("tagged hash of every midstate and {n}-byte message"), &got, &want);
        }
        Ok(())
    }));
    t
}

pub const WRITERS: [&str; 13] = ["sha1", "sha256", "sha512", "ripemd160", "siphash24", "tagA", "hmac_sha1", "hmac_sha256", "hmac_sha384", "hmac_sha512", "hmac_sha512_256", "hmac_ripemd160", "hmac_siphash24"];
pub fn eng_of(w: &str) -> Eng {
    if w == "tagA" { return tag(0); }
    for a in ALGS { if a.name() == w { return plain(a); } if hmac_pre(a) == w { return hmac(a, 5); } }
    unreachable!()
}

/// Writing is inputting.
pub fn writers(cfg: &str, deep: bool, std: bool) -> Vec<Task> {
    let mut t = vec![];
    for w in WRITERS {
        let e = eng_of(w);
        let bs = e.bs();
        let mut pairs: Vec<(usize, usize)> = vec![(0, 0), (0, 1), (3, 0), (1, bs - 1), (1, bs), (bs - 1, 1), (bs - 1, 2), (0, bs), (0, 2 * bs + 1), (5, 3 * bs), (bs / 2, bs / 2 - 1)];
        if deep { for r0 in 0..bs { pairs.push((r0, bs - r0)); pairs.push((r0, bs - r0 + 1)); pairs.push((r0, 3)); } }
        for g in group(&pairs, 12) {
            t.push(Task::new(cfg, format!("{w} writer, pending/written {g:?}"), move |r| {
                for (r0, n) in g {
                    r.reset();
                    let s = e.start(r)?;
                    let m = r.fresh_bytes("m", r0 + n);
                    e.input(r, s.e, &m[..r0])?;
                    let x = e.copy_of(r, &s, s.e);
                    e.input(r, x, &m[r0..])?;
                    let want = r.it.get_raw(x, s.size);
                    let nb = e.nbytes(r, x)?;
                    let len = u64v(s.l0 + (r0 + n) as u64);
                    let dig = e.finish(r, &s, &s.h0, &m, &len);
                    let a = slice(r, &m[r0..], "data");
                    let fs: &[&str] = if std { &["bwrite", "bwriteall", "swrite", "swriteall", "sfmt", "bflush", "sflush"] } else { &["bwrite", "bwriteall", "bflush"] };
                    for f in fs {
                        r.reset();
                        let c = e.copy_of(r, &s, s.e);
                        let name = format!("w_{w}_{f}");
                        let cnt = r.it.alloc(8, 8, "count");
                        let mut args = vec![u64v(c)];
                        let flush = f.ends_with("flush");
                        if !flush { args.extend_from_slice(&a); }
                        if f.ends_with("write") { args.push(u64v(cnt)); }
                        let ok = r.call(&name, &args)?.ok_or("no value")?;
                        r.same_bit(&format!("{name}: succeeds"), &ok, T);
                        if r.it.d.as_const(&ok) != Some(1) { continue; }
                        if f.ends_with("write") {
                            let k = r.it.get(cnt, 8);
                            let k = r.it.d.concat(&k);
                            r.same1(&format!("{name}: reports {n} bytes"), &k, &u64v(n as u64));
                        }
                        let got = r.it.get_raw(c, s.size);
                        if flush { 
                            let orig = r.it.get_raw(s.e, s.size);
                            if got == orig { r.obl += 1; r.dis += 1; } else { 
                                let l0 = u64v(s.l0 + r0 as u64);
                                let want = e.finish(r, &s, &s.h0, &m[..r0], &l0);
                                let got = e.finalize(r, c)?;
                                r.same(&format!("{name}: changes nothing (pending {r0})"), &got, &want);
                            }
                            continue;
                        }
                        if got == want { r.obl += 1; r.dis += 1; continue; }
                        let nb2 = e.nbytes(r, c)?;
                        r.same1(&format!("{name}: byte count after {r0}+{n}"), &nb2, &nb);
                        let got = e.finalize(r, c)?;
                        r.same(&format!("{name}: digest after {r0} input and {n} written"), &got, &dig);
                    }
                    if !std { continue; }
                    // several buffers at once: a prefix of them is input, and its length reported
                    let cut = n / 3;
                    let (a1, a2) = (slice(r, &m[r0..r0 + cut], "first"), slice(r, &m[r0 + cut..], "second"));
                    r.reset();
                    let c = e.copy_of(r, &s, s.e);
                    let name = format!("w_{w}_svec");
                    let cnt = r.it.alloc(8, 8, "count");
                    let ok = r.call(&name, &[u64v(c), a1[0].clone(), a1[1].clone(), a2[0].clone(), a2[1].clone(), u64v(cnt)])?.ok_or("no value")?;
                    r.same_bit(&format!("{name}: succeeds"), &ok, T);
                    let k = r.it.get(cnt, 8);
                    let k = r.it.d.concat(&k);
                    let k = match r.it.d.as_const(&k) { Some(k) => k as usize, None => continue };
                    r.must(&format!("{name}: reports what it wrote"), k <= n && (k > 0 || n == 0), format!("{k} of {n} bytes"));
                    if k > n { continue; }
                    let x = e.copy_of(r, &s, s.e);
                    r.reset();
                    e.input(r, x, &m[r0..r0 + k])?;
                    if r.it.get_raw(x, s.size) == r.it.get_raw(c, s.size) { r.obl += 1; r.dis += 1; continue; }
                    let nb2 = e.nbytes(r, c)?;
                    r.same1(&format!("{name}: byte count after {r0}+{n}"), &nb2, &u64v(s.l0 + (r0 + k) as u64));
                    let dig = e.finish(r, &s, &s.h0, &m[..r0 + k], &u64v(s.l0 + (r0 + k) as u64));
                    let got = e.finalize(r, c)?;
                    r.same(&format!("{name}: digest after {r0} input and {n} in two buffers"), &got, &dig);
                }
                Ok(())
            }));
        }
    }
    t
}
