#!/usr/bin/env python3
"""Compile-fail witnesses: programs that would use a dangling or aliased reference obtained from the
safe interface. Each is one function; the compiler's borrow checker must reject every one of them.

borrow.py OUT  -> prints "ok N" (all rejected), or one line per accepted program and exits 1.
Programs that do not type-check for another reason (the interface changed) are left out."""
import json, os, subprocess, sys
out = sys.argv[1]
os.makedirs(out + "/src", exist_ok=True)
TYPES = [("sha1::Hash", 20), ("sha256::Hash", 32), ("sha384::Hash", 48), ("sha512::Hash", 64), ("sha512_256::Hash", 32),
         ("ripemd160::Hash", 20), ("siphash24::Hash", 8), ("hmac::Hash<8>", 8), ("hmac::Hash<32>", 32), ("hmac::Hash<64>", 64),
         ("sha256t::Hash<Bare>", 32)]
BORROW = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0716", "E0621", "E0373"}
progs = []
def p(what, body, args="", ret=""):
    progs.append((what, "fn f%d(%s)%s {%s}" % (len(progs), args, ret, body)))
for t, n in TYPES:
    T = t.replace("<", "::<")
    ctor = "%s::from_byte_array([0; %d])" % (T, n)
    # views that would outlive the bytes
    p(t + "::from_bytes_ref outlives the array", " let r: &%s; { let b = [0u8; %d]; r = %s::from_bytes_ref(&b); } use_it(r); " % (t, n, T))
    p(t + "::from_bytes_mut outlives the array", " let r: &mut %s; { let mut b = [0u8; %d]; r = %s::from_bytes_mut(&mut b); } use_it(r); " % (t, n, T))
    p(t + "::from_bytes_ref while the array changes", " let mut b = [0u8; %d]; let r = %s::from_bytes_ref(&b); b[0] = 1; use_it(r); " % (n, T))
    p(t + "::from_bytes_ref returned from a local", " let b = [0u8; %d]; %s::from_bytes_ref(&b) " % (n, T), ret=" -> &'static %s" % t)
    p(t + "::from_bytes_mut twice", " let mut b = [0u8; %d]; let r = %s::from_bytes_mut(&mut b); let q = %s::from_bytes_mut(&mut b); use_it(r); use_it(q); " % (n, T, T))
    p(t + "::from_bytes_mut while the array is read", " let mut b = [0u8; %d]; let r = %s::from_bytes_mut(&mut b); let x = b[0]; use_it(r); use_it(&x); " % (n, T))
    # views of the bytes that would outlive the hash
    views = [("as_byte_array", "h.as_byte_array()", "&[u8; %d]" % n), ("as_bytes", "h.as_bytes()", "&[u8]"), ("as_ref", "AsRef::<[u8]>::as_ref(&h)", "&[u8]"),
             ("index", "&h[1]", "&u8"), ("index range", "&h[1..2]", "&[u8]"), ("index range from", "&h[1..]", "&[u8]"), ("index range to", "&h[..2]", "&[u8]"), ("index range full", "&h[..]", "&[u8]")]
    if not t.startswith("hmac"): views.append(("as_ref array", "AsRef::<[u8; %d]>::as_ref(&h)" % n, "&[u8; %d]" % n))
    for name, e, ty in views:
        p("%s: %s outlives the hash" % (t, name), " let r: %s; { let h = %s; r = %s; } use_it(r); " % (ty, ctor, e))
        p("%s: %s while the hash changes" % (t, name), " let mut h = %s; let r: %s = %s; h = %s; use_it(r); use_it(&h); " % (ctor, ty, e, ctor))
p("sha256::Midstate: as_ref outlives the midstate", " let r: &[u8]; { let h = sha256::Midstate([0; 32]); r = h.as_ref(); } use_it(r); ")
p("sha256::Midstate: index outlives the midstate", " let r: &[u8]; { let h = sha256::Midstate([0; 32]); r = &h[..]; } use_it(r); ")
head = """#![allow(dead_code, unused, warnings)]
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
#[derive(Clone)] pub struct Bare;
impl sha256t::Tag for Bare { fn engine() -> sha256t::Engine<Self> { sha256t::Engine::from_midstate(sha256::Midstate::hash_tag(b"witness"), 64) } }
fn use_it<T: ?Sized>(_: &T) {}
"""
open(out + "/Cargo.toml", "w").write('[package]\nname = "borrow"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nchf = { path = "/repo", default-features = false }\n')
here = os.path.dirname(os.path.abspath(__file__))
lock = open(here + "/../witness/Cargo.lock").read().replace('name = "witness"', 'name = "borrow"')
open(out + "/Cargo.lock", "w").write(lock)

def run(live):
    h = head.count("\n")
    with open(out + "/src/lib.rs", "w") as f:
        f.write(head)
        for i in live: f.write(progs[i][1] + "\n")
    subprocess.run("rm -rf '%s'/debug/.fingerprint/chf-* '%s'/debug/.fingerprint/borrow-*" % (out + "/t", out + "/t"), shell=True)
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "check", "-q", "--offline", "--message-format=json", "--target-dir", out + "/t"], cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    codes = {}
    other = False
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-message": continue
        m, tgt = m["message"], m.get("target", {}).get("name")
        if m["level"] != "error" or not m.get("spans"): continue
        code = (m.get("code") or {}).get("code")
        lines = [s["line_start"] for s in m["spans"] if s["is_primary"] and s["file_name"].endswith("src/lib.rs") and tgt == "borrow"]
        if not lines: other = True
        for x in lines:
            if x <= h: other = True
            else: codes.setdefault(live[x - h - 1], set()).add(code)
    return codes, other, r
live = list(range(len(progs)))
codes, other, r = run(live)
bad = {i for i, c in codes.items() if not (c & BORROW)}
if other: print("not analysable"); print(r.stderr[:2000]); sys.exit(2)
if bad:
    live = [i for i in live if i not in bad]
    codes, other, r = run(live)
    if other: print("not analysable"); sys.exit(2)
acc = [i for i in live if not (codes.get(i, set()) & BORROW)]
if len(acc) == len(live): print("not analysable"); print(r.stderr[:2000]); sys.exit(2)
for i in acc: print("accepted by the compiler: %s\n    %s" % progs[i])
if acc: sys.exit(1)
print("ok %d" % len(live))
