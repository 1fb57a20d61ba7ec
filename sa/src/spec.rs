//! Reference definitions of the published functions, in the analyser's value domain.
use crate::dom::*;

pub fn xor3(d: &mut Dom, a: &Val, b: &Val, c: &Val) -> Val { let t = d.vxor(a, b); d.vxor(&t, c) }
pub fn ssig(d: &mut Dom, x: &Val, r: [u32; 2], s: u32) -> Val {
    let (a, b, c) = (d.rotr_k(x, r[0]), d.rotr_k(x, r[1]), d.lshr_k(x, s));
    xor3(d, &a, &b, &c)
}
pub fn bsig(d: &mut Dom, x: &Val, r: [u32; 3]) -> Val {
    let (a, b, c) = (d.rotr_k(x, r[0]), d.rotr_k(x, r[1]), d.rotr_k(x, r[2]));
    xor3(d, &a, &b, &c)
}
pub fn ch(d: &mut Dom, x: &Val, y: &Val, z: &Val) -> Val {
    let a = d.vand(x, y);
    let n = d.vnot(x);
    let b = d.vand(&n, z);
    d.vxor(&a, &b)
}
pub fn maj(d: &mut Dom, x: &Val, y: &Val, z: &Val) -> Val {
    let (a, b, c) = (d.vand(x, y), d.vand(x, z), d.vand(y, z));
    xor3(d, &a, &b, &c)
}
pub fn par(d: &mut Dom, x: &Val, y: &Val, z: &Val) -> Val { xor3(d, x, y, z) }

/// One SHA-2 round; `wk` is W+K when `k` is None.
pub fn sha2_round(d: &mut Dom, v: &mut [Val; 8], wk: &Val, k: Option<&Val>, s0: [u32; 3], s1: [u32; 3]) {
    let w = d.width(wk);
    let e1 = bsig(d, &v[4], s1);
    let c = ch(d, &v[4], &v[5], &v[6]);
    let mut t1 = vec![(v[7].clone(), 1), (e1, 1), (c, 1), (wk.clone(), 1)];
    if let Some(k) = k { t1.push((k.clone(), 1)); }
    let t1v = d.sum(w, &t1, 0);
    let a0 = bsig(d, &v[0], s0);
    let m = maj(d, &v[0], &v[1], &v[2]);
    let ne = d.add(&v[3], &t1v);
    let na = d.sum(w, &[(t1v, 1), (a0, 1), (m, 1)], 0);
    *v = [na, v[0].clone(), v[1].clone(), v[2].clone(), ne, v[4].clone(), v[5].clone(), v[6].clone()];
}

// ---------------------------------------------------------------- constants derived from their definitions
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n { if v.iter().all(|p| c % p != 0) { v.push(c); } c += 1; }
    v
}
/// Integer k-th root of x·2^(k·64), low 64 bits: the fractional part of the root to 64 bits.
fn frac_root(x: u64, k: u32) -> u64 {
    // find r with r^k <= x << (64k), r < 2^(64+8), by binary search over big integers
    fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut r = vec![0u64; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u128;
            for j in 0..b.len() {
                let t = r[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + b.len()] = c as u64;
        }
        r
    }
    fn le(a: &[u64], b: &[u64]) -> bool {
        let n = a.len().max(b.len());
        for i in (0..n).rev() {
            let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
            if x != y { return x < y; }
        }
        true
    }
    let mut target = vec![0u64; k as usize];
    target.push(x);
    let (mut lo, mut hi) = (0u128, 1u128 << 72);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let mv = [m as u64, (m >> 64) as u64];
        let mut p = mv.to_vec();
        for _ in 1..k { p = mul(&p, &mv); }
        if le(&p, &target) { lo = m } else { hi = m }
    }
    lo as u64
}
/// FIPS 180-4: fractional parts of the cube roots of the first 80 primes.
pub fn k512() -> &'static [u64] { static K: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new(); K.get_or_init(|| primes(80).into_iter().map(|p| frac_root(p, 3)).collect()) }
pub fn k256() -> &'static [u64] { static K: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new(); K.get_or_init(|| primes(64).into_iter().map(|p| frac_root(p, 3) >> 32).collect()) }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg { Sha1, Sha256, Sha384, Sha512, Sha512_256, Ripemd160, Siphash24 }
pub const ALGS: [Alg; 7] = [Alg::Sha1, Alg::Sha256, Alg::Sha384, Alg::Sha512, Alg::Sha512_256, Alg::Ripemd160, Alg::Siphash24];

#[derive(Clone)]
pub struct Trace { pub labels: Vec<(String, Val)> }

impl Alg {
    pub fn name(self) -> &'static str {
        match self { Alg::Sha1 => "sha1", Alg::Sha256 => "sha256", Alg::Sha384 => "sha384", Alg::Sha512 => "sha512", Alg::Sha512_256 => "sha512_256", Alg::Ripemd160 => "ripemd160", Alg::Siphash24 => "siphash24" }
    }
    pub fn block(self) -> usize { match self { Alg::Sha1 | Alg::Sha256 | Alg::Ripemd160 => 64, Alg::Siphash24 => 8, _ => 128 } }
    pub fn dlen(self) -> usize { match self { Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 | Alg::Sha512_256 => 32, Alg::Sha384 => 48, Alg::Sha512 => 64, Alg::Siphash24 => 8 } }
    pub fn word(self) -> u32 { match self { Alg::Sha1 | Alg::Sha256 | Alg::Ripemd160 => 32, _ => 64 } }
    pub fn be(self) -> bool { !matches!(self, Alg::Ripemd160 | Alg::Siphash24) }
    pub fn nwords(self) -> usize { match self { Alg::Sha1 | Alg::Ripemd160 => 5, Alg::Siphash24 => 4, _ => 8 } }
    pub fn is_block(self) -> bool { self != Alg::Siphash24 }
    pub fn iv(self) -> Vec<Val> {
        let w = self.word();
        let v: Vec<u64> = match self {
            Alg::Sha1 | Alg::Ripemd160 => vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
            Alg::Sha256 => primes(8).into_iter().map(|p| frac_root(p, 2) >> 32).collect(),
            Alg::Sha512 => primes(8).into_iter().map(|p| frac_root(p, 2)).collect(),
            Alg::Sha384 => primes(16)[8..].iter().map(|p| frac_root(*p, 2)).collect(),
            Alg::Sha512_256 => sha512t_iv(),
            Alg::Siphash24 => vec![0x736f6d6570736575, 0x646f72616e646f6d, 0x6c7967656e657261, 0x7465646279746573],
        };
        v.into_iter().map(|x| Val::I(w, x)).collect()
    }
}

/// FIPS 180-4 section 5.3.6: the IV of SHA-512/256 is SHA-512 (with a modified IV) of "SHA-512/256".
fn sha512t_iv() -> Vec<u64> {
    let mut d = Dom::new();
    let h: Vec<Val> = primes(8).into_iter().map(|p| Val::I(64, frac_root(p, 2) ^ 0xa5a5a5a5a5a5a5a5)).collect();
    let msg: Vec<Val> = b"SHA-512/256".iter().map(|b| Val::I(8, *b as u64)).collect();
    let len = Val::I(64, 11);
    let h = md_finish(&mut d, Alg::Sha512, h, &msg, &len, &mut None);
    h.iter().map(|v| match v { Val::I(_, k) => *k, _ => 0 }).collect()
}

pub fn word_of(d: &mut Dom, b: &[Val], be: bool) -> Val {
    let mut v: Vec<Val> = b.to_vec();
    if be { v.reverse(); }
    d.concat(&v)
}
pub fn bytes_of(d: &mut Dom, v: &Val, be: bool) -> Vec<Val> {
    let n = d.width(v) / 8;
    let mut r: Vec<Val> = (0..n).map(|i| d.extract(v, 8 * i, 8)).collect();
    if be { r.reverse(); }
    r
}
pub type Tr = Option<Vec<(String, Val)>>;
fn note(t: &mut Tr, l: impl FnOnce() -> String, v: &Val) { if let Some(x) = t { x.push((l(), v.clone())); } }

pub fn compress(d: &mut Dom, alg: Alg, h: &[Val], block: &[Val], tr: &mut Tr) -> Vec<Val> {
    // nothing is compared with the definition when only effects matter
    if d.coarse { return h.to_vec(); }
    if d.apps_on && alg != Alg::Siphash24 {
        let args: Vec<Val> = h.iter().chain(block).cloned().collect();
        if let Some(v) = d.app(alg as u8, &args, alg.word()) { return v.to_vec(); }
    }
    match alg {
        Alg::Sha256 => sha2(d, h, block, 32, k256(), [2, 13, 22], [6, 11, 25], ([7, 18], 3), ([17, 19], 10), tr),
        Alg::Sha384 | Alg::Sha512 | Alg::Sha512_256 => sha2(d, h, block, 64, k512(), [28, 34, 39], [14, 18, 41], ([1, 8], 7), ([19, 61], 6), tr),
        Alg::Sha1 => sha1(d, h, block, tr),
        Alg::Ripemd160 => rmd(d, h, block, tr),
        Alg::Siphash24 => {
            let m = word_of(d, block, false);
            sip_block(d, h, &m)
        }
    }
}
fn sha2(d: &mut Dom, h: &[Val], block: &[Val], w: u32, k: &[u64], s0: [u32; 3], s1: [u32; 3], g0: ([u32; 2], u32), g1: ([u32; 2], u32), tr: &mut Tr) -> Vec<Val> {
    let n = (w / 8) as usize;
    let mut ws: Vec<Val> = block.chunks(n).map(|c| word_of(d, c, true)).collect();
    for i in 16..k.len() {
        let a = ssig(d, &ws[i - 2], g1.0, g1.1);
        let b = ssig(d, &ws[i - 15], g0.0, g0.1);
        let v = d.sum(w, &[(a, 1), (ws[i - 7].clone(), 1), (b, 1), (ws[i - 16].clone(), 1)], 0);
        note(tr, || format!("message schedule word {i}"), &v);
        ws.push(v);
    }
    let mut v: [Val; 8] = h.to_vec().try_into().unwrap();
    for i in 0..k.len() {
        let kv = Val::I(w, k[i]);
        sha2_round(d, &mut v, &ws[i], Some(&kv), s0, s1);
        note(tr, || format!("round {i}: a"), &v[0]);
        note(tr, || format!("round {i}: e"), &v[4]);
    }
    (0..8).map(|i| d.add(&h[i], &v[i])).collect()
}
fn sha1(d: &mut Dom, h: &[Val], block: &[Val], tr: &mut Tr) -> Vec<Val> {
    let mut w: Vec<Val> = block.chunks(4).map(|c| word_of(d, c, true)).collect();
    for i in 16..80 {
        let t = xor3(d, &w[i - 3], &w[i - 8], &w[i - 14]);
        let t = d.vxor(&t, &w[i - 16]);
        w.push(d.rotl_k(&t, 1));
    }
    let mut v: Vec<Val> = h.to_vec();
    for i in 0..80 {
        let (f, k) = match i {
            0..=19 => (ch(d, &v[1], &v[2], &v[3]), 0x5a827999u64),
            20..=39 => (par(d, &v[1], &v[2], &v[3]), 0x6ed9eba1),
            40..=59 => (maj(d, &v[1], &v[2], &v[3]), 0x8f1bbcdc),
            _ => (par(d, &v[1], &v[2], &v[3]), 0xca62c1d6),
        };
        let a5 = d.rotl_k(&v[0], 5);
        let t = d.sum(32, &[(a5, 1), (f, 1), (v[4].clone(), 1), (w[i].clone(), 1)], k as u128);
        note(tr, || format!("round {i}: a"), &t);
        let b30 = d.rotl_k(&v[1], 30);
        v = vec![t, v[0].clone(), b30, v[2].clone(), v[3].clone()];
    }
    (0..5).map(|i| d.add(&h[i], &v[i])).collect()
}
const RL: [[usize; 16]; 5] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8],
    [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
    [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2],
    [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13],
];
const SL: [[u32; 16]; 5] = [
    [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
    [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
    [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
    [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
    [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6],
];
const RR: [[usize; 16]; 5] = [
    [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12],
    [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
    [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
    [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
    [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11],
];
const SR: [[u32; 16]; 5] = [
    [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6],
    [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
    [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
    [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
    [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11],
];
fn rmd_f(d: &mut Dom, j: usize, x: &Val, y: &Val, z: &Val) -> Val {
    match j {
        0 => xor3(d, x, y, z),
        1 => ch(d, x, y, z),
        2 => { let n = d.vnot(y); let t = d.vor(x, &n); d.vxor(&t, z) }
        3 => ch(d, z, x, y),
        _ => { let n = d.vnot(z); let t = d.vor(y, &n); d.vxor(x, &t) }
    }
}
fn rmd(d: &mut Dom, h: &[Val], block: &[Val], tr: &mut Tr) -> Vec<Val> {
    let x: Vec<Val> = block.chunks(4).map(|c| word_of(d, c, false)).collect();
    let kl: [u128; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    let kr: [u128; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    let mut out = vec![];
    for side in 0..2 {
        let mut v: Vec<Val> = h.to_vec();
        for j in 0..80 {
            let r = j / 16;
            let (f, k, xi, s) = if side == 0 { (r, kl[r], RL[r][j % 16], SL[r][j % 16]) } else { (4 - r, kr[r], RR[r][j % 16], SR[r][j % 16]) };
            let fv = rmd_f(d, f, &v[1], &v[2], &v[3]);
            let t = d.sum(32, &[(v[0].clone(), 1), (fv, 1), (x[xi].clone(), 1)], k);
            let t = d.rotl_k(&t, s);
            let t = d.add(&t, &v[4]);
            note(tr, || format!("{} line step {j}", if side == 0 { "left" } else { "right" }), &t);
            let c = d.rotl_k(&v[2], 10);
            v = vec![v[4].clone(), t, v[1].clone(), c, v[3].clone()];
        }
        out.push(v);
    }
    let s = |d: &mut Dom, a: usize, b: usize, c: usize| d.sum(32, &[(h[a].clone(), 1), (out[0][b].clone(), 1), (out[1][c].clone(), 1)], 0);
    vec![s(d, 1, 2, 3), s(d, 2, 3, 4), s(d, 3, 4, 0), s(d, 4, 0, 1), s(d, 0, 1, 2)]
}

// ---------------------------------------------------------------- SipHash
fn sip_round(d: &mut Dom, v: &mut [Val]) {
    v[0] = d.add(&v[0], &v[1]);
    v[2] = d.add(&v[2], &v[3]);
    v[1] = d.rotl_k(&v[1], 13);
    v[3] = d.rotl_k(&v[3], 16);
    v[1] = d.vxor(&v[1], &v[0]);
    v[3] = d.vxor(&v[3], &v[2]);
    v[0] = d.rotl_k(&v[0], 32);
    v[2] = d.add(&v[2], &v[1]);
    v[0] = d.add(&v[0], &v[3]);
    v[1] = d.rotl_k(&v[1], 17);
    v[3] = d.rotl_k(&v[3], 21);
    v[1] = d.vxor(&v[1], &v[2]);
    v[3] = d.vxor(&v[3], &v[0]);
    v[2] = d.rotl_k(&v[2], 32);
}
pub fn sip_rounds2(d: &mut Dom, v: &mut [Val]) {
    if d.apps_on { if let Some(o) = d.app(Alg::Siphash24 as u8, v, 64) { v.clone_from_slice(&o); return; } }
    for _ in 0..2 { sip_round(d, v); }
}
/// The functions behind `Dom::app`, on constants.
pub fn concrete(code: u8, k: &[u64]) -> Vec<u64> {
    let alg = ALGS[code as usize];
    let n = alg.nwords();
    let (h, b) = (&k[..n], &k[n..]);
    let w32 = |be: bool| -> Vec<u32> { b.chunks(4).map(|c| { let x = [c[0] as u8, c[1] as u8, c[2] as u8, c[3] as u8]; if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } }).collect() };
    let h32: Vec<u32> = h.iter().map(|x| *x as u32).collect();
    match alg {
        Alg::Siphash24 => {
            let (mut a, mut b, mut c, mut d) = (h[0], h[1], h[2], h[3]);
            for _ in 0..2 {
                a = a.wrapping_add(b); c = c.wrapping_add(d);
                b = b.rotate_left(13) ^ a; d = d.rotate_left(16) ^ c;
                a = a.rotate_left(32);
                c = c.wrapping_add(b); a = a.wrapping_add(d);
                b = b.rotate_left(17) ^ c; d = d.rotate_left(21) ^ a;
                c = c.rotate_left(32);
            }
            vec![a, b, c, d]
        }
        Alg::Sha1 => {
            let mut w = w32(true);
            for i in 16..80 { w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1)); }
            let (mut a, mut b, mut c, mut d, mut e) = (h32[0], h32[1], h32[2], h32[3], h32[4]);
            for i in 0..80 {
                let (f, q) = match i / 20 { 0 => ((b & c) ^ (!b & d), 0x5a827999u32), 1 => (b ^ c ^ d, 0x6ed9eba1), 2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc), _ => (b ^ c ^ d, 0xca62c1d6) };
                let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(w[i]).wrapping_add(q);
                e = d; d = c; c = b.rotate_left(30); b = a; a = t;
            }
            [a, b, c, d, e].iter().zip(&h32).map(|(x, y)| x.wrapping_add(*y) as u64).collect()
        }
        Alg::Sha256 => {
            let mut w = w32(true);
            for i in 16..64 {
                let s = |x: u32, a: u32, b: u32, c: u32| x.rotate_right(a) ^ x.rotate_right(b) ^ (x >> c);
                w.push(s(w[i - 2], 17, 19, 10).wrapping_add(w[i - 7]).wrapping_add(s(w[i - 15], 7, 18, 3)).wrapping_add(w[i - 16]));
            }
            let mut v = h32.clone();
            for (i, q) in k256().iter().enumerate() {
                let s = |x: u32, a: u32, b: u32, c: u32| x.rotate_right(a) ^ x.rotate_right(b) ^ x.rotate_right(c);
                let t1 = v[7].wrapping_add(s(v[4], 6, 11, 25)).wrapping_add((v[4] & v[5]) ^ (!v[4] & v[6])).wrapping_add(*q as u32).wrapping_add(w[i]);
                let t2 = s(v[0], 2, 13, 22).wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            v.iter().zip(&h32).map(|(x, y)| x.wrapping_add(*y) as u64).collect()
        }
        Alg::Sha384 | Alg::Sha512 | Alg::Sha512_256 => {
            let mut w: Vec<u64> = b.chunks(8).map(|c| c.iter().fold(0, |a, x| a << 8 | x & 255)).collect();
            for i in 16..80 {
                let s = |x: u64, a: u32, b: u32, c: u32| x.rotate_right(a) ^ x.rotate_right(b) ^ (x >> c);
                w.push(s(w[i - 2], 19, 61, 6).wrapping_add(w[i - 7]).wrapping_add(s(w[i - 15], 1, 8, 7)).wrapping_add(w[i - 16]));
            }
            let mut v: [u64; 8] = h.try_into().unwrap();
            for (i, q) in k512().iter().enumerate() {
                let s = |x: u64, a: u32, b: u32, c: u32| x.rotate_right(a) ^ x.rotate_right(b) ^ x.rotate_right(c);
                let t1 = v[7].wrapping_add(s(v[4], 14, 18, 41)).wrapping_add((v[4] & v[5]) ^ (!v[4] & v[6])).wrapping_add(*q).wrapping_add(w[i]);
                let t2 = s(v[0], 28, 34, 39).wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            v.iter().zip(h).map(|(x, y)| x.wrapping_add(*y)).collect()
        }
        Alg::Ripemd160 => {
            let x = w32(false);
            let kl: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
            let kr: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
            let mut o = vec![];
            for side in 0..2 {
                let mut v = [h32[0], h32[1], h32[2], h32[3], h32[4]];
                for j in 0..80 {
                    let r = j / 16;
                    let (f, q, xi, s) = if side == 0 { (r, kl[r], RL[r][j % 16], SL[r][j % 16]) } else { (4 - r, kr[r], RR[r][j % 16], SR[r][j % 16]) };
                    let (a, b, c) = (v[1], v[2], v[3]);
                    let fv = match f { 0 => a ^ b ^ c, 1 => (a & b) | (!a & c), 2 => (a | !b) ^ c, 3 => (a & c) | (b & !c), _ => a ^ (b | !c) };
                    let t = v[0].wrapping_add(fv).wrapping_add(x[xi]).wrapping_add(q).rotate_left(s).wrapping_add(v[4]);
                    v = [v[4], t, v[1], v[2].rotate_left(10), v[3]];
                }
                o.push(v);
            }
            let s = |a: usize, b: usize, c: usize| h32[a].wrapping_add(o[0][b]).wrapping_add(o[1][c]) as u64;
            vec![s(1, 2, 3), s(2, 3, 4), s(3, 4, 0), s(4, 0, 1), s(0, 1, 2)]
        }
    }
}
pub fn sip_block(d: &mut Dom, h: &[Val], m: &Val) -> Vec<Val> {
    if d.coarse { return h.to_vec(); }
    let mut v = h.to_vec();
    v[3] = d.vxor(&v[3], m);
    sip_rounds2(d, &mut v);
    v[0] = d.vxor(&v[0], m);
    v
}
pub fn sip_init(d: &mut Dom, k0: &Val, k1: &Val) -> Vec<Val> {
    let iv = Alg::Siphash24.iv();
    vec![d.vxor(&iv[0], k0), d.vxor(&iv[1], k1), d.vxor(&iv[2], k0), d.vxor(&iv[3], k1)]
}
/// `len` is the total length (only its low byte matters); `tail` the bytes after the last whole word.
pub fn sip_finish(d: &mut Dom, h: Vec<Val>, msg: &[Val], len: &Val) -> Val {
    let mut v = h;
    let mut it = msg.chunks_exact(8);
    for c in &mut it { let m = word_of(d, c, false); v = sip_block(d, &v, &m); }
    let mut t = it.remainder().to_vec();
    while t.len() < 7 { t.push(Val::I(8, 0)); }
    t.push(d.trunc(len, 8));
    let m = word_of(d, &t, false);
    v = sip_block(d, &v, &m);
    v[2] = d.vxor(&v[2], &Val::I(64, 0xff));
    if d.apps_on && d.sip_d_apps { sip_rounds2(d, &mut v); sip_rounds2(d, &mut v); } else { for _ in 0..4 { sip_round(d, &mut v); } }
    let a = d.vxor(&v[0], &v[1]);
    let b = d.vxor(&v[2], &v[3]);
    d.vxor(&a, &b)
}

// ---------------------------------------------------------------- whole functions
/// Absorbs `msg` into `h`, pads with the total byte length `len` and returns the final chaining value.
pub fn md_finish(d: &mut Dom, alg: Alg, h: Vec<Val>, msg: &[Val], len: &Val, tr: &mut Tr) -> Vec<Val> {
    let b = alg.block();
    let lb = if b == 128 { 16 } else { 8 };
    let mut m = msg.to_vec();
    m.push(Val::I(8, 0x80));
    while m.len() % b != b - lb { m.push(Val::I(8, 0)); }
    // bit length
    let l = d.zext(len, 8 * lb as u32);
    let l = d.shl_k(&l, 3);
    m.extend(bytes_of(d, &l, alg.be()));
    let mut h = h;
    for c in m.chunks(b) { h = compress(d, alg, &h, c, tr); }
    h
}
pub fn digest_of(d: &mut Dom, alg: Alg, h: &[Val]) -> Vec<Val> {
    let mut o = vec![];
    for w in h { o.extend(bytes_of(d, w, alg.be())); }
    o.truncate(alg.dlen());
    o
}
/// Digest of `msg` appended to a history with chaining value `h` and `before` bytes.
pub fn finish(d: &mut Dom, alg: Alg, h: Vec<Val>, msg: &[Val], len: &Val, tr: &mut Tr) -> Vec<Val> {
    if alg == Alg::Siphash24 {
        let v = sip_finish(d, h, msg, len);
        return bytes_of(d, &v, false);
    }
    let h = md_finish(d, alg, h, msg, len, tr);
    digest_of(d, alg, &h)
}
pub fn init(d: &mut Dom, alg: Alg) -> Vec<Val> {
    if alg == Alg::Siphash24 { let z = Val::I(64, 0); return sip_init(d, &z, &z); }
    alg.iv()
}
pub fn hash(d: &mut Dom, alg: Alg, msg: &[Val], tr: &mut Tr) -> Vec<Val> {
    let h = init(d, alg);
    let len = Val::I(64, msg.len() as u64);
    finish(d, alg, h, msg, &len, tr)
}
/// RFC 2104.
pub fn hmac(d: &mut Dom, alg: Alg, key: &[Val], msg: &[Val]) -> Vec<Val> {
    let b = alg.block();
    let mut k = if key.len() > b { hash(d, alg, key, &mut None) } else { key.to_vec() };
    while k.len() < b { k.push(Val::I(8, 0)); }
    let mut i: Vec<Val> = k.iter().map(|x| d.vxor(x, &Val::I(8, 0x36))).collect();
    i.extend_from_slice(msg);
    let ih = hash(d, alg, &i, &mut None);
    let mut o: Vec<Val> = k.iter().map(|x| d.vxor(x, &Val::I(8, 0x5c))).collect();
    o.extend(ih);
    hash(d, alg, &o, &mut None)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn run(a: Alg, m: &[u8]) -> String {
        let mut d = Dom::new();
        let v: Vec<Val> = m.iter().map(|b| Val::I(8, *b as u64)).collect();
        hash(&mut d, a, &v, &mut None).iter().map(|x| match x { Val::I(_, k) => format!("{k:02x}"), _ => "??".into() }).collect()
    }
    #[test]
    fn concrete_is_the_definition() {
        let mut x = 1u64;
        let mut rnd = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        for (i, a) in ALGS.into_iter().enumerate() {
            for _ in 0..20 {
                let h: Vec<u64> = (0..a.nwords()).map(|_| if a.word() == 32 { rnd() & 0xffff_ffff } else { rnd() }).collect();
                let b: Vec<u64> = if a == Alg::Siphash24 { vec![] } else { (0..a.block()).map(|_| rnd() & 255).collect() };
                let mut d = Dom::new();
                let hv: Vec<Val> = h.iter().map(|k| Val::I(a.word(), *k)).collect();
                let bv: Vec<Val> = b.iter().map(|k| Val::I(8, *k)).collect();
                let r = if a == Alg::Siphash24 { let mut v = hv; sip_rounds2(&mut d, &mut v); v } else { compress(&mut d, a, &hv, &bv, &mut None) };
                let k: Vec<u64> = h.into_iter().chain(b).collect();
                assert_eq!(concrete(i as u8, &k).into_iter().map(|x| Val::I(a.word(), x)).collect::<Vec<_>>(), r, "{a:?}");
            }
        }
    }
    #[test]
    fn vectors() {
        assert_eq!(run(Alg::Sha1, b"abc"), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(run(Alg::Sha256, b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(run(Alg::Sha512, b"abc"), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
        assert_eq!(run(Alg::Sha384, b"abc"), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7");
        assert_eq!(run(Alg::Sha512_256, b"abc"), "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23");
        assert_eq!(run(Alg::Ripemd160, b"abc"), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
    }
}
