//! Suites over the value types: conversions, text, comparison, serde, schema.
use crate::check::*;
use crate::dom::*;
use crate::engines::{kbytes, slice};
use crate::interp::R;

/// (name, length, has the full interface, has the array reference and inclusive range)
pub const TYPES: [(&str, usize, bool, bool); 15] = [
    ("sha1", 20, true, true), ("sha256", 32, true, true), ("sha384", 48, true, true), ("sha512", 64, true, true),
    ("sha512_256", 32, true, true), ("ripemd160", 20, true, true), ("siphash24", 8, true, true),
    ("tagA", 32, true, true), ("tagB", 32, true, false),
    ("hmac8", 8, true, false), ("hmac20", 20, true, false), ("hmac32", 32, true, false), ("hmac48", 48, true, false), ("hmac64", 64, true, false),
    ("mid", 32, false, false),
];

/// Finds out which CPU tests guard which instruction set, from the detection macro's own expansion.
pub fn gates(r: &mut Run) {
    let names: Vec<String> = r.it.p.ext_funcs.keys().filter(|n| n.starts_with("cpu_")).cloned().collect();
    let mut num = vec![];
    for n in names {
        if let Ok(Some(Some(v))) = r.it.call_name(&n, &[]) {
            let b = r.it.d.bits(&v)[0];
            if let Some((k, _)) = r.it.cpu.iter().find(|(_, x)| **x == b) { num.push((n[4..].to_string(), *k)); }
        }
    }
    r.it.take_events();
    r.it.st.pc = T;
    // feature -> features that imply it
    const IMPLY: [(&str, &[&str]); 9] = [
        ("sse4.2", &["sse4.1"]), ("sse4.1", &["ssse3"]), ("ssse3", &["sse3"]), ("avx", &["sse4.2"]), ("avx2", &["avx"]), ("fma", &["avx"]), ("f16c", &["avx"]), ("avx512f", &["avx2"]), ("sse4a", &["sse3"]),
    ];
    for (n, k) in &num {
        let mut todo = vec![n.as_str()];
        while let Some(x) = todo.pop() {
            let e = r.it.gates.entry(x.to_string()).or_default();
            if !e.contains(k) { e.push(*k); }
            for (a, b) in IMPLY { if a == x { todo.extend(b); } }
        }
    }
    r.it.check_gates = true;
}

fn usz(r: &mut Run, p: u64) -> Val { let b = r.it.get(p, 8); r.it.d.concat(&b) }

/// A value of the type with the given bytes, built by the library.
fn make(r: &mut Run, t: &str, n: usize, b: &[Val]) -> R<u64> {
    let (sz, al) = (r.konst(&format!("c_ty_{t}_size"))? as usize, r.konst(&format!("c_ty_{t}_align"))?);
    let h = r.it.alloc(sz, al, "hash");
    let src = r.it.bytes_in(b, 1, "bytes");
    let _ = n;
    r.call(&format!("x_{t}_make"), &[u64v(src), u64v(h)])?;
    Ok(h)
}

// ---------------------------------------------------------------- conversions
pub fn layout(cfg: &str) -> Vec<Task> {
    vec![Task::new(cfg, "layout of the hash types", |r| {
        for (t, n, ..) in TYPES {
            let (s, a) = (r.konst(&format!("c_ty_{t}_size"))?, r.konst(&format!("c_ty_{t}_align"))?);
            r.must(&format!("{t}: size"), s == n as u64, format!("{s} bytes instead of {n}"));
            r.must(&format!("{t}: alignment"), a == 1, format!("{a} instead of 1"));
        }
        for (t, n, _, arr) in TYPES {
            if !arr { continue; }
            let l = r.konst(&format!("c_ty_{t}_len"))?;
            r.must(&format!("{t}: LEN"), l == n as u64, format!("{l} instead of {n}"));
        }
        Ok(())
    })]
}

pub fn conversions(cfg: &str, deep: bool, alloc: bool) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, full, arr) in TYPES {
        out.push(Task::new(cfg, format!("{t}: byte views"), move |r| {
            let b = r.fresh_bytes("b", n);
            let h = make(r, t, n, &b)?;
            let mut views = vec!["toarray", "asrefslice", "rangefull"];
            if full { views.extend(["asarray", "asbytes"]); if alloc { views.push("tovec"); } }
            if arr { views.push("asrefarray"); }
            if t == "mid" { views.push("field"); }
            for v in views {
                r.reset();
                let o = r.it.alloc(n, 1, "out");
                let l = r.call(&format!("x_{t}_{v}"), &[u64v(h), u64v(o)])?;
                if let Some(l) = l { r.same1(&format!("{t}: length of {v}"), &l, &u64v(n as u64)); }
                let got = r.it.get(o, n);
                r.same(&format!("{t}: {v} gives the bytes it was made from"), &got, &b);
            }
            if full {
                for v in ["ref", "mutread"] {
                    r.reset();
                    let src = r.it.alloc(n, 1, "bytes");
                    r.it.put(src, &b);
                    let o = r.it.alloc(n, 1, "out");
                    r.call(&format!("x_{t}_{v}"), &[u64v(src), u64v(o)])?;
                    let got = r.it.get(o, n);
                    r.same(&format!("{t}: from_bytes_{} sees the bytes", if v == "ref" { "ref" } else { "mut" }), &got, &b);
                    let got = r.it.get(src, n);
                    r.same(&format!("{t}: from_bytes_* leaves the bytes"), &got, &b);
                }
                r.reset();
                let c = r.fresh_bytes("c", n);
                let (src, v) = (r.it.alloc(n, 1, "bytes"), r.it.bytes_in(&c, 1, "value"));
                r.it.put(src, &b);
                r.call(&format!("x_{t}_mutwrite"), &[u64v(src), u64v(v)])?;
                let got = r.it.get(src, n);
                r.same(&format!("{t}: writing through from_bytes_mut"), &got, &c);
                r.reset();
                let o = r.it.alloc(n, 1, "out");
                r.call(&format!("x_{t}_zeros"), &[u64v(o)])?;
                let got = r.it.get(o, n);
                r.same(&format!("{t}: all_zeros"), &got, &kbytes(&vec![0; n]));
            }
            Ok(())
        }));
        out.push(Task::new(cfg, format!("{t}: from_slice"), move |r| {
            let mut ls: Vec<usize> = vec![0, 1, 2, n / 2, n - 1, n, n + 1, n + 2, n + 8, 2 * n - 1, 2 * n, 2 * n + 1, 8, 16, 20, 28, 32, 33, 48, 64, 65, 128, 255, 256, 257, 256 + n, 512 + n, 1024];
            ls.extend(if deep { 0..=300 } else { 0..=70 });
            ls.sort();
            ls.dedup();
            for l in ls {
                r.reset();
                let b = r.fresh_bytes("b", l);
                let s = slice(r, &b, "slice");
                let (o, e) = (r.it.alloc(n, 1, "out"), r.it.alloc(32, 8, "error"));
                let ok = r.call(&format!("x_{t}_fromslice"), &[s[0].clone(), s[1].clone(), u64v(o), u64v(e)])?.ok_or("no value")?;
                r.same1(&format!("{t}: from_slice of {l} bytes {}", if l == n { "succeeds" } else { "fails" }), &ok, &Val::I(8, (l == n) as u64));
                if r.it.d.as_const(&ok) != Some((l == n) as u128) { continue; }
                if l == n {
                    let got = r.it.get(o, n);
                    r.same(&format!("{t}: from_slice keeps the bytes"), &got, &b);
                } else {
                    for (i, (w, k)) in [("got", l), ("expected", n), ("invalid_length", l), ("expected_length", n)].into_iter().enumerate() {
                        let v = usz(r, e + 8 * i as u64);
                        r.same1(&format!("{t}: error of from_slice({l} bytes): {w}"), &v, &u64v(k as u64));
                    }
                }
            }
            Ok(())
        }));
        out.push(Task::new(cfg, format!("{t}: from_slice, any length"), move |r| {
            let (p, l) = any_length(r, "slice");
            let (o, e) = (r.it.alloc(n, 1, "out"), r.it.alloc(32, 8, "error"));
            let ok = r.call(&format!("x_{t}_fromslice"), &[u64v(p), l.clone(), u64v(o), u64v(e)])?.ok_or("no value")?;
            let c = r.it.d.eq(&l, &u64v(n as u64));
            r.same_bit(&format!("{t}: from_slice succeeds exactly for {n} bytes"), &ok, c);
            Ok(())
        }));
        out.push(Task::new(cfg, format!("{t}: indexing"), move |r| {
            let i = r.it.d.fresh("i", 16, PUBLIC);
            let i = r.it.d.zext(&i, 64);
            let b = r.fresh_bytes("b", n);
            let h = make(r, t, n, &b)?;
            // any index
            let inr = r.it.d.ult(&i, &u64v(n as u64));
            r.may_panic = r.it.d.not(inr);
            let got = r.call(&format!("x_{t}_index"), &[u64v(h), i.clone()]);
            match got {
                Ok(g) => {
                    let g = g.ok_or("no value")?;
                    let mut want = b[n - 1].clone();
                    for k in (0..n - 1).rev() { let c = r.it.d.eq(&i, &u64v(k as u64)); want = r.it.d.select(c, &b[k], &want); }
                    r.same1(&format!("{t}: index"), &g, &want);
                }
                Err(e) if e == "stop" => {}
                Err(_) => {}
            }
            let mut rs: Vec<(usize, usize)> = vec![(0, 0), (0, 1), (0, n), (1, n), (0, n - 1), (n - 1, n), (n, n), (n / 2, n), (0, n / 2), (3, 5), (1, n - 1)];
            if deep { for a in 0..=n { for c in a..=n { if (a + c) % 5 == 0 { rs.push((a, c)); } } } }
            for (a, c) in rs {
                let mut forms = vec![("range", vec![a, c])];
                if c == n { forms.push(("rangefrom", vec![a])); }
                if a == 0 { forms.push(("rangeto", vec![c])); }
                if arr && c > a { forms.push(("rangeincl", vec![a, c - 1])); }
                for (f, v) in forms {
                    r.reset();
                    let o = r.it.alloc(n, 1, "out");
                    let mut args = vec![u64v(h)];
                    args.extend(v.iter().map(|x| u64v(*x as u64)));
                    args.push(u64v(o));
                    let l = r.call(&format!("x_{t}_{f}"), &args)?.ok_or("no value")?;
                    r.same1(&format!("{t}: {f} {a}..{c} length"), &l, &u64v((c - a) as u64));
                    if r.it.d.as_const(&l) != Some((c - a) as u128) { continue; }
                    let got = r.it.get(o, c - a);
                    r.same(&format!("{t}: {f} {a}..{c}"), &got, &b[a..c]);
                }
            }
            // out of range
            for (f, v) in [("range", vec![0, n + 1]), ("range", vec![n + 1, n + 1]), ("rangefrom", vec![n + 1]), ("rangeto", vec![n + 1]), ("index", vec![n]), ("index", vec![255])] {
                r.reset();
                r.may_panic = T;
                let o = r.it.alloc(2 * n, 1, "out");
                let mut args = vec![u64v(h)];
                args.extend(v.iter().map(|x| u64v(*x as u64)));
                if f != "index" { args.push(u64v(o)); }
                match r.call(&format!("x_{t}_{f}"), &args) { Ok(_) => {} Err(e) if e == "stop" => {} Err(e) => return Err(e) }
            }
            Ok(())
        }));
    }
    out.push(Task::new(cfg, "FromSliceError", |r| {
        let (g, x) = (r.it.d.fresh("got", 64, PUBLIC), r.it.d.fresh("expected", 64, PUBLIC));
        let e = r.it.alloc(32, 8, "error");
        // the constructor documents nothing for equal lengths
        let eq = r.it.d.eq(&g, &x);
        r.assume = r.it.d.not(eq);
        r.reset();
        r.call("x_err_new", &[g.clone(), x.clone(), u64v(e)])?;
        for (i, (w, v)) in [("got", &g), ("expected", &x), ("invalid_length", &g), ("expected_length", &x)].into_iter().enumerate() {
            let k = usz(r, e + 8 * i as u64);
            r.same1(&format!("FromSliceError: {w}"), &k, v);
        }
        Ok(())
    }));
    out.push(Task::new(cfg, "FromSliceError text", |r| {
        for (g, x) in [(0u64, 32u64), (31, 20), (65, 64), (1_234_567, 48), (12, 8)] {
            r.reset();
            let s = sink(r);
            r.call("f_err_display", &[u64v(g), u64v(x), u64v(s)])?;
            if !r.functional() { continue; }
            let n = usz(r, s);
            let Some(n) = r.it.d.as_const(&n) else { continue };
            let b = r.it.get(s + 16, n as usize);
            let Some(t) = b.iter().map(|c| r.it.d.as_const(c).map(|c| c as u8 as char)).collect::<Option<String>>() else { continue };
            let nums: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
            let after = t.to_lowercase().find("expected").and_then(|i| t[i..].split(|c: char| !c.is_ascii_digit()).find_map(|w| w.parse::<u64>().ok()));
            let ok = nums.contains(&g) && nums.contains(&x) && (after.is_none() || after == Some(x));
            r.must(&format!("text of FromSliceError {{ got: {g}, expected: {x} }}"), ok, t);
        }
        Ok(())
    }));
    out
}

// ---------------------------------------------------------------- text
fn digit(r: &mut Run, nib: &Val, upper: bool) -> Val {
    let mut v = Val::I(8, 0);
    for k in (0..16u64).rev() {
        let c = if k < 10 { b'0' as u64 + k } else { (if upper { b'A' } else { b'a' }) as u64 + k - 10 };
        let e = r.it.d.eq(nib, &Val::I(4, k));
        v = if k == 15 { Val::I(8, c) } else { r.it.d.select(e, &Val::I(8, c), &v) };
    }
    v
}
pub fn hex_of(r: &mut Run, b: &[Val], upper: bool, prefix: bool) -> Vec<Val> {
    let mut o = if prefix { kbytes(b"0x") } else { vec![] };
    for x in b {
        for lo in [4, 0] { let n = r.it.d.extract(x, lo, 4); o.push(digit(r, &n, upper)); }
    }
    o
}
pub fn sink(r: &mut Run) -> u64 {
    let s = r.it.alloc(272, 8, "sink");
    r.it.put(s, &kbytes(&[0; 16]));
    s
}
/// What was written to the sink, if its length is the expected one.
fn sink_is(r: &mut Run, s: u64, what: &str, want: &[Val]) {
    if !r.functional() { return; }
    let n = usz(r, s);
    let before = r.vio.len();
    r.same1(&format!("{what}: length of the text"), &n, &u64v(want.len() as u64));
    if r.vio.len() > before { return; }
    let got = r.it.get(s + 16, want.len());
    r.same(what, &got, want);
}

pub fn formatting(cfg: &str) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, ..) in TYPES {
        out.push(Task::new(cfg, format!("{t}: formatting"), move |r| {
            let b = r.fresh_bytes("b", n);
            let h = make(r, t, n, &b)?;
            for (f, up, pre) in [("display", false, false), ("displayalt", false, true), ("lower", false, false), ("loweralt", false, true), ("upper", true, false), ("upperalt", true, true), ("debug", false, true), ("debugalt", false, true)] {
                r.reset();
                let s = sink(r);
                let ok = r.call(&format!("f_{t}_{f}"), &[u64v(h), u64v(s)])?.ok_or("no value")?;
                r.same_bit(&format!("{t}: {f} succeeds"), &ok, T);
                // HMAC values have no prefix in any form
                let want = hex_of(r, &b, up, pre && !t.starts_with("hmac"));
                sink_is(r, s, &format!("{t}: {f} of every value"), &want);
            }
            Ok(())
        }));
    }
    out
}

/// Formatting with widths, precisions, fills and signs: only its effects are judged.
pub fn formatting_options(cfg: &str) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, ..) in TYPES {
        out.push(Task::new(cfg, format!("{t}: formatting options"), move |r| {
            let b = r.fresh_bytes("b", n);
            let h = make(r, t, n, &b)?;
            for (k, w, p) in (0..15).map(|k| (k, 2 * n + 5, 7)).chain([(0, 0, 0), (2, 1, 1), (0, 3, 2 * n - 1), (1, 2 * n, 2 * n), (2, 2 * n + 1, 2 * n + 1), (8, 70, 1000), (3, 150, 3)]) {
                r.reset();
                let s = sink(r);
                r.call(&format!("f_{t}_wp"), &[u64v(h), Val::I(8, k), u64v(w as u64), u64v(p as u64), u64v(s)])?;
            }
            Ok(())
        }));
    }
    out
}

/// Condition: the character is a hex digit; and its value.
fn hexval(r: &mut Run, c: &Val) -> (Bit, Val) {
    let (mut ok, mut v) = (F, Val::I(4, 0));
    for k in 0..256u64 {
        let Some(x) = (k as u8 as char).to_digit(16) else { continue };
        if k > 127 { continue; }
        let e = r.it.d.eq(c, &Val::I(8, k));
        ok = r.it.d.or(ok, e);
        v = r.it.d.select(e, &Val::I(4, x as u64), &v);
    }
    (ok, v)
}
/// Characters: all ASCII strings, or strings with one longer character at `at`.
fn text(r: &mut Run, l: usize, wide: Option<(usize, usize)>) -> Vec<Val> {
    let mut v = vec![];
    let mut i = 0;
    while i < l {
        if let Some((at, k)) = wide { if i == at && i + k <= l {
            let cont = |r: &mut Run, i: usize| { let x = r.it.d.fresh(&format!("s[{i}]"), 6, SECRET); r.it.d.concat(&[x, Val::I(2, 2)]) };
            match k {
                2 => { let x = r.it.d.fresh(&format!("s[{i}]"), 4, SECRET); let h = r.it.d.concat(&[x, Val::I(4, 0xd)]); v.push(h); let c = cont(r, i + 1); v.push(c); }
                3 => { let x = r.it.d.fresh(&format!("s[{i}]"), 3, SECRET); let h = r.it.d.concat(&[x, Val::I(5, 0b11100)]); v.push(h);
                       // a second byte valid after every one of these first bytes: 1010_0000..=1011_1111 is valid after E0; after others too
                       let y = r.it.d.fresh(&format!("s[{}]", i + 1), 5, SECRET); let c = r.it.d.concat(&[y, Val::I(3, 0b101)]); v.push(c); let c = cont(r, i + 2); v.push(c); }
                _ => { v.extend(kbytes("😀".as_bytes())); }
            }
            i += k;
            continue;
        } }
        let x = r.it.d.fresh(&format!("s[{i}]"), 7, SECRET);
        v.push(r.it.d.concat(&[x, Val::I(1, 0)]));
        i += 1;
    }
    v
}
/// Decides one reader of text: accepted exactly for hex of the right length, with that value.
fn reader(r: &mut Run, what: &str, n: usize, s: &[Val], strict: bool, f: &mut dyn FnMut(&mut Run, u64) -> R<Val>) -> R<()> {
    let o = r.it.alloc(n, 1, "out");
    r.it.put(o, &kbytes(&vec![0; n]));
    let ok = f(r, o)?;
    if !r.functional() { return Ok(()); }
    let mut acc = T;
    let mut vals = vec![];
    if s.len() != 2 * n { acc = F; } else {
        for c in s { let (k, v) = hexval(r, c); acc = r.it.d.and(acc, k); vals.push(v); }
    }
    let okb = r.it.d.bits(&ok);
    if strict { r.same_bit(&format!("{what}: accepted exactly when it is hex of the right length"), &ok, acc); }
    else {
        let na = r.it.d.not(acc);
        let w = r.it.d.and(okb[0], na);
        r.same_bit(&format!("{what}: nothing else is accepted"), &Val::I(1, 0), w);
    }
    let both = r.it.d.and(okb[0], acc);
    if both != F {
        let mut want = vec![];
        for c in vals.chunks(2) { want.push(r.it.d.concat(&[c[1].clone(), c[0].clone()])); }
        let got = r.it.get(o, n);
        let (mut g2, mut w2) = (vec![], vec![]);
        for i in 0..n { g2.push(r.it.d.select(both, &got[i], &Val::I(8, 0))); w2.push(r.it.d.select(both, &want[i], &Val::I(8, 0))); }
        r.same(&format!("{what}: value"), &g2, &w2);
    }
    Ok(())
}
fn text_cases(n: usize, deep: bool) -> Vec<(usize, Option<(usize, usize)>)> {
    let mut v: Vec<(usize, Option<(usize, usize)>)> = [2 * n, 0, 1, 2, n, n - 1, n + 1, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 2 * n + 4, 3 * n, 4 * n].iter().map(|l| (*l, None)).collect();
    for at in [0, 1, n, 2 * n - 2] { v.push((2 * n, Some((at, 2)))); }
    for at in [0, 2 * n - 3] { v.push((2 * n, Some((at, 3)))); }
    v.push((2 * n, Some((2, 4))));
    v.push((2 * n + 1, Some((2 * n - 1, 2))));
    // a longer character near every place where text might be cut
    for l in [2, 3, 4, 5, 8, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 4, 4 * n] {
        for k in 2..=4usize {
            for at in [0, 1, 2, 3, n - 1, n, 2 * n - 2, 2 * n - 1, 2 * n, l.saturating_sub(k), l.saturating_sub(k + 1)] { if at + k <= l { v.push((l, Some((at, k)))); } }
        }
    }
    for at in [3, n - 1, 2 * n - 4] { v.push((2 * n, Some((at, 4)))); v.push((2 * n, Some((at, 3)))); }
    if deep { for l in 0..2 * n + 10 { v.push((l, None)); } for at in 0..2 * n - 3 { v.push((2 * n, Some((at, 2)))); v.push((2 * n, Some((at, 3)))); } }
    v.sort();
    v.dedup();
    v
}
/// Arbitrary bytes, of arbitrary length up to 2^34.
fn any_length(r: &mut Run, name: &str) -> (u64, Val) {
    r.it.fuel = r.it.insts + 3_000_000;
    let p = r.it.lazy_in(1 << 34, 1, name);
    let l = r.it.d.fresh(&format!("length of {name}"), 34, PUBLIC);
    (p, r.it.d.zext(&l, 64))
}
fn other_length(r: &mut Run, l: &Val, ns: &[usize]) {
    let mut ok = T;
    for k in ns { let c = r.it.d.eq(l, &u64v(*k as u64)); let c = r.it.d.not(c); ok = r.it.d.and(ok, c); }
    r.assume = ok;
    r.reset();
}
fn rejected(r: &mut Run, what: &str, v: &Val) {
    let v = r.it.d.trunc(v, 8);
    let z = r.it.d.eq(&v, &Val::I(8, 0));
    let z = r.it.d.not(z);
    let bad = r.it.d.and(z, r.assume);
    let w = r.it.d.word(&[bad]);
    r.same_bit(&format!("{what} is rejected"), &w, F);
}
pub fn parsing(cfg: &str, deep: bool) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, ..) in TYPES {
        out.push(Task::new(cfg, format!("{t}: parsing, any other length"), move |r| {
            if !r.functional() { return Ok(()); }
            let (p, l) = any_length(r, "text");
            other_length(r, &l, &[2 * n]);
            let o = r.it.alloc(n, 1, "out");
            let v = r.call(&format!("p_{t}_parse"), &[u64v(p), l, u64v(o)])?.ok_or("no value")?;
            rejected(r, &format!("{t}: text of any other length"), &v);
            Ok(())
        }));
        for g in text_cases(n, deep).chunks(40) {
            let g = g.to_vec();
            out.push(Task::new(cfg, format!("{t}: parsing, lengths {:?}", g.iter().map(|x| x.0).collect::<Vec<_>>()), move |r| {
                for (l, w) in g {
                    r.reset();
                    let s = text(r, l, w);
                    let a = slice(r, &s, "text");
                    let kind = if w.is_some() { " with a non-ASCII character" } else { "" };
                    reader(r, &format!("{t}: text of {l} bytes{kind}"), n, &s, true, &mut |r, o| Ok(r.call(&format!("p_{t}_parse"), &[a[0].clone(), a[1].clone(), u64v(o)])?.ok_or("no value")?))?;
                }
                Ok(())
            }));
        }
    }
    out
}

// ---------------------------------------------------------------- serde
pub fn serde(cfg: &str, deep: bool) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, ..) in TYPES {
        out.push(Task::new(cfg, format!("{t}: serialisation"), move |r| {
            let b = r.fresh_bytes("b", n);
            let h = make(r, t, n, &b)?;
            for human in [1u64, 0] {
                r.reset();
                let s = sink(r);
                let k = r.call(&format!("s_{t}_ser"), &[u64v(h), Val::I(1, human), u64v(s)])?.ok_or("no value")?;
                let what = if human == 1 { "human-readable form" } else { "binary form" };
                r.same1(&format!("{t}: kind of the {what}"), &k, &Val::I(8, if human == 1 { 1 } else { 2 }));
                let want = if human == 1 { hex_of(r, &b, false, false) } else { b.clone() };
                sink_is(r, s, &format!("{t}: {what} of every value"), &want);
            }
            // binary: exactly the digest length
            let mut ls: Vec<usize> = vec![0, 1, n - 1, n, n + 1, 2 * n, 2 * n + 1, n / 2, n + 8, 256 + n];
            ls.extend(if deep { 0..=140 } else { 0..=1 });
            ls.sort();
            ls.dedup();
            for l in ls {
                for mode in [0u64, 1] {
                    r.reset();
                    let b = r.fresh_bytes("d", l);
                    let s = slice(r, &b, "data");
                    let o = r.it.alloc(n, 1, "out");
                    let ok = r.call(&format!("s_{t}_de"), &[s[0].clone(), s[1].clone(), Val::I(1, 0), Val::I(8, mode), u64v(o)])?.ok_or("no value")?;
                    r.same1(&format!("{t}: {l} bytes {} in binary form", if l == n { "accepted" } else { "rejected" }), &ok, &Val::I(8, (l == n) as u64));
                    if l == n && r.it.d.as_const(&ok) == Some(1) { let got = r.it.get(o, n); r.same(&format!("{t}: value read from the binary form"), &got, &b); }
                }
            }
            Ok(())
        }));
        out.push(Task::new(cfg, format!("{t}: deserialising, any other length"), move |r| {
            if !r.functional() { return Ok(()); }
            for (human, mode, ns) in [(0u64, 0u64, vec![n]), (0, 1, vec![n]), (1, 0, vec![2 * n]), (1, 1, vec![2 * n])] {
                r.assume = T;
                r.reset();
                let (p, l) = any_length(r, "text");
                other_length(r, &l, &ns);
                let o = r.it.alloc(n, 1, "out");
                let v = r.call(&format!("s_{t}_de"), &[u64v(p), l, Val::I(1, human), Val::I(8, mode), u64v(o)])?.ok_or("no value")?;
                rejected(r, &format!("{t}: deserialising any other length (mode {human}.{mode})"), &v);
            }
            Ok(())
        }));
        for g in text_cases(n, deep).chunks(40) {
            let g = g.to_vec();
            out.push(Task::new(cfg, format!("{t}: deserialising text, lengths {:?}", g.iter().map(|x| x.0).collect::<Vec<_>>()), move |r| {
                for (l, w) in g {
                    for mode in [0u64, 1, 2] {
                        if mode > 0 && l != 2 * n { continue; }
                        if mode == 2 && w.is_some() { continue; }
                        r.reset();
                        let s = text(r, l, w);
                        let a = slice(r, &s, "text");
                        reader(r, &format!("{t}: serialised text of {l} bytes (mode {mode})"), n, &s, mode < 2, &mut |r, o| Ok(r.call(&format!("s_{t}_de"), &[a[0].clone(), a[1].clone(), Val::I(1, 1), Val::I(8, mode), u64v(o)])?.ok_or("no value")?))?;
                    }
                }
                Ok(())
            }));
        }
    }
    out
}

// ---------------------------------------------------------------- comparison
fn two(r: &mut Run, n: usize) -> (Vec<Val>, Vec<Val>) {
    let (mut a, mut b) = (vec![], vec![]);
    for i in 0..n { let (x, y) = r.it.d.fresh_pair(&format!("a[{i}]"), &format!("b[{i}]"), 8, SECRET); a.push(x); b.push(y); }
    (a, b)
}
pub fn comparison(cfg: &str) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, ..) in TYPES {
        out.push(Task::new(cfg, format!("{t}: comparison"), move |r| {
            let (a, b) = two(r, n);
            let (ha, hb) = (make(r, t, n, &a)?, make(r, t, n, &b)?);
            let (mut eq, mut lt) = (T, F);
            for i in (0..n).rev() {
                let (e, l) = (r.it.d.eq(&a[i], &b[i]), r.it.d.ult(&a[i], &b[i]));
                eq = r.it.d.and(eq, e);
                lt = r.it.d.ite(e, lt, l);
            }
            let ne = r.it.d.not(eq);
            let ge = r.it.d.not(lt);
            let le = r.it.d.or(lt, eq);
            let gt = r.it.d.not(le);
            for (f, w) in [("eq", eq), ("ne", ne), ("lt", lt), ("le", le), ("gt", gt), ("ge", ge)] {
                r.reset();
                let v = r.call(&format!("o_{t}_{f}"), &[u64v(ha), u64v(hb)])?.ok_or("no value")?;
                r.same_bit(&format!("{t}: {f} of every two values"), &v, w);
            }
            let x = r.it.d.select(lt, &Val::I(8, 0), &Val::I(8, 2));
            let want = r.it.d.select(eq, &Val::I(8, 1), &x);
            for f in ["cmp", "pcmp"] {
                r.reset();
                let v = r.call(&format!("o_{t}_{f}"), &[u64v(ha), u64v(hb)])?.ok_or("no value")?;
                r.same1(&format!("{t}: {f} of every two values"), &v, &want);
            }
            for (f, c) in [("max", le), ("min", gt)] {
                r.reset();
                let o = make(r, t, n, &kbytes(&vec![0; n]))?;
                r.call(&format!("o_{t}_{f}"), &[u64v(ha), u64v(hb), u64v(o)])?;
                let want: Vec<Val> = (0..n).map(|i| r.it.d.select(c, &b[i], &a[i])).collect();
                let got = r.it.get(o, n);
                r.same(&format!("{t}: {f} of every two values"), &got, &want);
            }
            for f in ["clone", "copy", "clonefrom"] {
                r.reset();
                let o = make(r, t, n, &b)?;
                r.call(&format!("o_{t}_{f}"), &[u64v(ha), u64v(o)])?;
                let got = r.it.get(o, n);
                r.same(&format!("{t}: {f} equals the original"), &got, &a);
            }
            if t == "mid" || t == "tagA" {
                r.reset();
                let o = r.it.alloc(n, 1, "out");
                r.call(&format!("o_{t}_default"), &[u64v(o)])?;
                let got = r.it.get(o, n);
                r.same(&format!("{t}: default is all zero"), &got, &kbytes(&vec![0; n]));
            }
            // what the hasher sees: an injective image of the bytes
            r.reset();
            let s = r.it.alloc(264, 8, "hasher");
            r.it.put(s, &kbytes(&[0; 8]));
            r.call(&format!("o_{t}_hash"), &[u64v(ha), u64v(s)])?;
            let k = usz(r, s);
            match r.it.d.as_const(&k) {
                Some(k) if (k as usize) <= 256 => {
                    let raw = r.it.get(s + 8, k as usize);
                    let undef = raw.iter().any(|v| r.it.d.has_undef(v));
                    r.must(&format!("{t}: hash input is defined"), !undef, "uninitialised".into());
                    // every input bit reaches the hasher on its own
                    let mut seen = crate::fx::Set::default();
                    for v in &raw { for bit in r.it.d.bits(v).iter() { seen.insert(*bit >> 1); } }
                    let all = a.iter().all(|v| r.it.d.bits(v).iter().all(|bit| seen.contains(&(*bit >> 1))));
                    if all { if r.functional() { r.obl += 1; r.dis += 1; } }
                    else {
                        // which bytes does it not depend on at all?
                        let bits: Vec<Bit> = raw.iter().flat_map(|v| r.it.d.bits(v).to_vec()).collect();
                        let sup = r.it.d.support(&bits, 4096);
                        let miss = sup.as_ref().map(|s| a.iter().enumerate().filter(|(_, v)| { let vb = r.it.d.bits(v); vb.iter().any(|b| !s.contains(&r.it.d.top_var(*b))) }).map(|x| x.0).collect::<Vec<_>>());
                        match miss { Some(m) if !m.is_empty() => r.must(&format!("{t}: the hash takes every byte into account"), false, format!("bytes {m:?} do not reach the hasher (wholly)")), _ => if r.functional() { r.obl += 1; r.und.push(format!("{t}: hash input of another form")); } }
                    }
                }
                _ => if r.functional() { r.obl += 1; r.und.push(format!("{t}: length of the hash input not decided")); },
            }
            Ok(())
        }));
    }
    out
}

pub fn fixed_eq(cfg: &str, deep: bool, extra: &[usize]) -> Vec<Task> {
    let mut ls: Vec<usize> = (0..=(if deep { 300 } else { 80 })).chain([127, 128, 129, 255, 256, 257, 511, 512, 513]).collect();
    ls.extend(extra.iter().filter(|x| **x <= 1024));
    ls.sort();
    ls.dedup();
    let mut out = vec![];
    // long slices: arbitrary bytes at some places, the rest fixed and equal
    let mut far: Vec<usize> = vec![1025, 4099, 65541];
    far.extend(extra.iter().filter(|x| **x > 1024));
    if deep { far.extend([2048, 8193, 65535, 65536, 65537, 131072 + 3]); }
    far.sort();
    far.dedup();
    for n in far {
        out.push(Task::new(cfg, format!("fixed_time_eq, length {n}"), move |r| {
            let step = (n / 24).max(1) | 1;
            let (mut a, mut b, mut at) = (vec![], vec![], vec![]);
            for i in 0..n {
                if i % step == 0 || i < 4 || i + 20 > n || (i & (i + 1)) == 0 { at.push(i); let (x, y) = r.it.d.fresh_pair(&format!("a[{i}]"), &format!("b[{i}]"), 8, SECRET); a.push(x); b.push(y); }
                else { let k = (i as u64).wrapping_mul(0x9e37_79b9) >> 7 & 255; a.push(Val::I(8, k)); b.push(Val::I(8, k)); }
            }
            let (x, y) = (slice(r, &a, "a"), slice(r, &b, "b"));
            let v = r.call("h_fixedeq", &[x[0].clone(), x[1].clone(), y[0].clone(), y[1].clone()])?.ok_or("no value")?;
            if r.functional() {
                let mut eq = T;
                for i in at.into_iter().rev() { let e = r.it.d.eq(&a[i], &b[i]); eq = r.it.d.and(e, eq); }
                r.same_bit(&format!("fixed_time_eq of slices of {n} bytes"), &v, eq);
            }
            Ok(())
        }));
    }
    for g in ls.chunks(10) {
        let g = g.to_vec();
        out.push(Task::new(cfg, format!("fixed_time_eq, lengths {g:?}"), move |r| {
            for n in g {
                r.reset();
                let (a, b) = two(r, n);
                let (x, y) = (slice(r, &a, "a"), slice(r, &b, "b"));
                let v = r.call("h_fixedeq", &[x[0].clone(), x[1].clone(), y[0].clone(), y[1].clone()])?.ok_or("no value")?;
                if r.functional() {
                    let mut eq = T;
                    for i in (0..n).rev() { let e = r.it.d.eq(&a[i], &b[i]); eq = r.it.d.and(e, eq); }
                    r.same_bit(&format!("fixed_time_eq of every two slices of {n} bytes"), &v, eq);
                }
                // the same slice twice
                r.reset();
                let v = r.call("h_fixedeq", &[x[0].clone(), x[1].clone(), x[0].clone(), x[1].clone()])?.ok_or("no value")?;
                r.same_bit(&format!("fixed_time_eq of a slice of {n} bytes with itself"), &v, T);
            }
            Ok(())
        }));
    }
    out.push(Task::new(cfg, "fixed_time_eq of any different lengths", move |r| {
        if !r.functional() { return Ok(()); }
        let (p, l) = any_length(r, "a");
        let (q, k) = any_length(r, "b");
        let c = r.it.d.eq(&l, &k);
        r.assume = r.it.d.not(c);
        r.reset();
        r.may_panic = T;
        match r.call("h_fixedeq", &[u64v(p), l, u64v(q), k]) { Ok(_) => {} Err(e) if e == "stop" => {} Err(e) => return Err(e) }
        Ok(())
    }));
    out.push(Task::new(cfg, "fixed_time_eq of different lengths", move |r| {
        let top = if deep { 70 } else { 34 };
        for a in 0..top {
            for d in [1usize, 2, 3, 8, 16, 32, 64, 256, 65536] {
                for (p, q) in [(a, a + d), (a + d, a)] {
                    if d > 64 && a > 2 { continue; }
                    r.reset();
                    r.may_panic = T;
                    // equal content as far as it goes
                    let z = kbytes(&vec![0; p.max(q)]);
                    let (x, y) = (slice(r, &z[..p], "a"), slice(r, &z[..q], "b"));
                    match r.call("h_fixedeq", &[x[0].clone(), x[1].clone(), y[0].clone(), y[1].clone()]) { Ok(_) => {} Err(e) if e == "stop" => {} Err(e) => return Err(e) }
                }
            }
        }
        Ok(())
    }));
    out
}

// ---------------------------------------------------------------- schema
pub fn schema(cfg: &str) -> Vec<Task> {
    let mut out = vec![];
    for (t, n, full, _) in TYPES {
        if !full { continue; }
        out.push(Task::new(cfg, format!("{t}: JSON schema"), move |r| {
            let s = sink(r);
            let o = r.it.alloc(64, 8, "out");
            // any generator: its contents are unknown
            let g = r.it.alloc(1024, 16, "generator");
            let gb: Vec<Val> = (0..1024).map(|i| r.it.d.fresh(&format!("generator[{i}]"), 8, PUBLIC)).collect();
            r.it.put(g, &gb);
            r.call(&format!("j_{t}_schema"), &[u64v(g), u64v(s), u64v(o)])?;
            let want = [("is an object schema", 1u64), ("type is string", 1), ("has string limits", 1), ("minLength", 2 * n as u64 + 1), ("maxLength", 2 * n as u64 + 1)];
            for (i, (w, k)) in want.into_iter().enumerate() {
                let v = usz(r, o + 8 * i as u64);
                r.same1(&format!("{t}: schema {w}{}", if i > 2 { " (plus one)" } else { "" }), &v, &u64v(k));
            }
            let (has, oth) = (usz(r, o + 40), usz(r, o + 48));
            if r.functional() && r.it.d.as_const(&oth) != Some(0) { r.obl += 1; r.und.push(format!("{t}: schema has further constraints")); }
            if r.it.d.as_const(&has) == Some(1) {
                let k = usz(r, s);
                let k = r.it.d.as_const(&k).ok_or("pattern length")? as usize;
                let raw = r.it.get_raw(s + 16, k);
                if raw.iter().any(|b| *b > 255) { return Err("pattern text".into()); }
                let pat = String::from_utf8(raw.iter().map(|b| *b as u8).collect()).map_err(|_| "pattern text")?;
                match crate::regex::rejects(&pat, 2 * n) {
                    Ok(None) => r.must(&format!("{t}: pattern matches every hex encoding"), true, String::new()),
                    Ok(Some(w)) => r.must(&format!("{t}: pattern matches every hex encoding"), false, format!("pattern `{pat}` does not match {w}")),
                    Err(e) => { r.obl += 1; r.und.push(format!("{t}: pattern `{pat}` not understood: {e}")); }
                }
            }
            Ok(())
        }));
    }
    out.push(Task::new(cfg, "schemas stored under one identity", move |r| {
        let mut ids: Vec<(String, &str, usize)> = vec![];
        for (t, n, full, _) in TYPES {
            if !full { continue; }
            r.reset();
            let s = sink(r);
            let f = r.call(&format!("j_{t}_id"), &[u64v(s)])?.ok_or("no value")?;
            let k = usz(r, s);
            let k = r.it.d.as_const(&k).ok_or("identity length")? as usize;
            let raw = r.it.get_raw(s + 16, k);
            if raw.iter().any(|b| *b > 255) { return Err("identity text".into()); }
            let id = String::from_utf8_lossy(&raw.iter().map(|b| *b as u8).collect::<Vec<u8>>()).into_owned();
            match r.it.d.as_const(&f) { Some(0) => {} Some(_) => ids.push((id, t, n)), None => return Err("is_referenceable".into()) }
            r.obl += 1;
            r.dis += 1;
        }
        for i in 0..ids.len() {
            for j in 0..i {
                let (a, b) = (&ids[i], &ids[j]);
                r.must(&format!("{} and {} do not share a definition", a.1, b.1), a.0 != b.0 || a.2 == b.2, format!("both are stored as `{}`, so in one document the second refers to the schema of the first, with {} instead of {} characters", a.0, 2 * b.2, 2 * a.2));
            }
        }
        Ok(())
    }));
    out
}
