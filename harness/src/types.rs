//! Conversions, text, comparison, serde, schema and writer entry points.
use core::fmt::{self, Write as _};
use core::mem::MaybeUninit;
use core::ptr;

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, FromSliceError};

use crate::tagged::{TagA, TagB};

/// Byte sink for text.
#[repr(C)]
pub struct Sink { n: usize, kind: usize, buf: [u8; 256] }
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut i = 0;
        let b = s.as_bytes();
        while i < b.len() {
            if self.n >= 256 { return Err(fmt::Error); }
            self.buf[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}

/// Records what a hasher is given.
#[repr(C)]
pub struct Rec { n: usize, buf: [u8; 256] }
impl core::hash::Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            if self.n < 256 { self.buf[self.n] = b[i]; self.n += 1; }
            i += 1;
        }
    }
    fn finish(&self) -> u64 { 0 }
}

fn err_out(e: FromSliceError, out: &mut [usize; 4]) {
    *out = [e.got, e.expected, e.invalid_length(), e.expected_length()];
}

macro_rules! common {
    ($s:literal, $H:ty, $N:expr) => {
        const _: () = {
            type H = $H;
            const N: usize = $N;
            #[export_name = concat!("c_ty_", $s, "_size")]
            pub static SIZE: usize = core::mem::size_of::<H>();
            #[export_name = concat!("c_ty_", $s, "_align")]
            pub static ALIGN: usize = core::mem::align_of::<H>();

            #[export_name = concat!("x_", $s, "_fromslice")]
            pub fn from_slice(d: &[u8], out: &mut [u8; N], e: &mut [usize; 4]) -> u8 {
                match <H>::from_slice(d) {
                    Ok(h) => { *out = h.to_byte_array(); 1 }
                    Err(x) => { err_out(x, e); 0 }
                }
            }
            #[export_name = concat!("x_", $s, "_make")]
            pub fn make(b: &[u8; N], out: &mut MaybeUninit<H>) { out.write(<H>::from_byte_array(*b)); }
            #[export_name = concat!("x_", $s, "_toarray")]
            pub fn to_array(h: *const H, out: &mut [u8; N]) { *out = unsafe { ptr::read(h) }.to_byte_array() }
            #[export_name = concat!("x_", $s, "_asrefslice")]
            pub fn as_ref_slice(h: &H, out: &mut [u8; N]) -> usize { let r: &[u8] = h.as_ref(); out.copy_from_slice(r); r.len() }
            #[export_name = concat!("x_", $s, "_index")]
            pub fn index(h: &H, i: usize) -> u8 { h[i] }
            #[export_name = concat!("x_", $s, "_range")]
            pub fn range(h: &H, a: usize, b: usize, out: &mut [u8; N]) -> usize { let r = &h[a..b]; out[..r.len()].copy_from_slice(r); r.len() }
            #[export_name = concat!("x_", $s, "_rangefrom")]
            pub fn rangefrom(h: &H, a: usize, out: &mut [u8; N]) -> usize { let r = &h[a..]; out[..r.len()].copy_from_slice(r); r.len() }
            #[export_name = concat!("x_", $s, "_rangeto")]
            pub fn rangeto(h: &H, b: usize, out: &mut [u8; N]) -> usize { let r = &h[..b]; out[..r.len()].copy_from_slice(r); r.len() }
            #[export_name = concat!("x_", $s, "_rangefull")]
            pub fn rangefull(h: &H, out: &mut [u8; N]) -> usize { let r = &h[..]; out.copy_from_slice(r); r.len() }

            // Text.
            #[export_name = concat!("f_", $s, "_display")]
            pub fn display(h: &H, s: &mut Sink) -> bool { write!(s, "{}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_displayalt")]
            pub fn displayalt(h: &H, s: &mut Sink) -> bool { write!(s, "{:#}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_lower")]
            pub fn lower(h: &H, s: &mut Sink) -> bool { write!(s, "{:x}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_loweralt")]
            pub fn loweralt(h: &H, s: &mut Sink) -> bool { write!(s, "{:#x}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_upper")]
            pub fn upper(h: &H, s: &mut Sink) -> bool { write!(s, "{:X}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_upperalt")]
            pub fn upperalt(h: &H, s: &mut Sink) -> bool { write!(s, "{:#X}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_debug")]
            pub fn debug(h: &H, s: &mut Sink) -> bool { write!(s, "{:?}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_debugalt")]
            pub fn debugalt(h: &H, s: &mut Sink) -> bool { write!(s, "{:#?}", h).is_ok() }
            #[export_name = concat!("f_", $s, "_wp")]
            pub fn wp(h: &H, kind: u8, w: usize, p: usize, s: &mut Sink) -> bool {
                match kind {
                    0 => write!(s, "{:w$.p$}", h), 1 => write!(s, "{:#w$.p$}", h), 2 => write!(s, "{:w$.p$x}", h), 3 => write!(s, "{:<w$.p$X}", h), 4 => write!(s, "{:^#w$.p$x}", h),
                    5 => write!(s, "{:+w$.p$}", h), 6 => write!(s, "{:0w$.p$}", h), 7 => write!(s, "{:*>#w$.p$X}", h), 8 => write!(s, "{:w$.p$?}", h), 9 => write!(s, "{:#w$?}", h),
                    10 => write!(s, "{:w$}", h), 11 => write!(s, "{:#.p$}", h), 12 => write!(s, "{:x?}", h), 13 => write!(s, "{:#X?}", h), _ => write!(s, "{:-0w$x}", h),
                }.is_ok()
            }
            #[export_name = concat!("p_", $s, "_parse")]
            pub fn parse(d: &[u8], out: &mut [u8; N]) -> u8 {
                // The analyser passes UTF-8 only.
                let t = unsafe { core::str::from_utf8_unchecked(d) };
                match t.parse::<H>() {
                    Ok(h) => { *out = h.to_byte_array(); 1 }
                    Err(_) => 0,
                }
            }

            // Comparison.
            #[export_name = concat!("o_", $s, "_eq")]
            pub fn eq(a: &H, b: &H) -> bool { a == b }
            #[export_name = concat!("o_", $s, "_ne")]
            pub fn ne(a: &H, b: &H) -> bool { a != b }
            #[export_name = concat!("o_", $s, "_cmp")]
            pub fn cmp(a: &H, b: &H) -> u8 { (Ord::cmp(a, b) as i8 + 1) as u8 }
            #[export_name = concat!("o_", $s, "_pcmp")]
            pub fn pcmp(a: &H, b: &H) -> u8 { match PartialOrd::partial_cmp(a, b) { Some(o) => (o as i8 + 1) as u8, None => 9 } }
            #[export_name = concat!("o_", $s, "_lt")]
            pub fn lt(a: &H, b: &H) -> bool { a < b }
            #[export_name = concat!("o_", $s, "_le")]
            pub fn le(a: &H, b: &H) -> bool { a <= b }
            #[export_name = concat!("o_", $s, "_gt")]
            pub fn gt(a: &H, b: &H) -> bool { a > b }
            #[export_name = concat!("o_", $s, "_ge")]
            pub fn ge(a: &H, b: &H) -> bool { a >= b }
            #[export_name = concat!("o_", $s, "_max")]
            pub fn max(a: &H, b: &H, out: &mut H) { *out = Ord::max(*a, *b) }
            #[export_name = concat!("o_", $s, "_min")]
            pub fn min(a: &H, b: &H, out: &mut H) { *out = Ord::min(*a, *b) }
            #[export_name = concat!("o_", $s, "_hash")]
            pub fn hash(a: &H, r: &mut Rec) { core::hash::Hash::hash(a, r) }
            #[export_name = concat!("o_", $s, "_clone")]
            pub fn clone(a: &H, out: &mut MaybeUninit<H>) { out.write(Clone::clone(a)); }
            #[export_name = concat!("o_", $s, "_copy")]
            pub fn copy(a: &H, out: &mut MaybeUninit<H>) { let b = *a; out.write(b); }
            #[export_name = concat!("o_", $s, "_clonefrom")]
            pub fn clonefrom(a: &H, out: &mut H) { out.clone_from(a); }

            // Serde.
            #[cfg(feature = "serde")]
            #[export_name = concat!("s_", $s, "_ser")]
            pub fn ser(h: &H, human: bool, s: &mut Sink) -> u8 {
                match serde::Serialize::serialize(h, crate::serd::Ser { human, s }) { Ok(k) => k, Err(_) => 0 }
            }
            #[cfg(feature = "serde")]
            #[export_name = concat!("s_", $s, "_de")]
            pub fn de(d: &'static [u8], human: bool, mode: u8, out: &mut [u8; N]) -> u8 {
                match <H as serde::Deserialize>::deserialize(crate::serd::De { human, mode, d }) {
                    Ok(h) => { *out = h.to_byte_array(); 1 }
                    Err(_) => 0,
                }
            }
        };
    };
}

macro_rules! full {
    ($s:literal, $H:ty, $N:expr) => {
        common!($s, $H, $N);
        const _: () = {
            type H = $H;
            const N: usize = $N;
            #[export_name = concat!("x_", $s, "_asarray")]
            pub fn as_array(h: &H, out: &mut [u8; N]) { *out = *h.as_byte_array() }
            #[export_name = concat!("x_", $s, "_asbytes")]
            pub fn as_bytes(h: &H, out: &mut [u8; N]) -> usize { let r = h.as_bytes(); out.copy_from_slice(r); r.len() }
            #[export_name = concat!("x_", $s, "_ref")]
            pub fn bytes_ref(b: &[u8; N], out: &mut [u8; N]) { *out = <H>::from_bytes_ref(b).to_byte_array() }
            #[export_name = concat!("x_", $s, "_mutread")]
            pub fn mut_read(b: &mut [u8; N], out: &mut [u8; N]) { *out = <H>::from_bytes_mut(b).to_byte_array() }
            #[export_name = concat!("x_", $s, "_mutwrite")]
            pub fn mut_write(b: &mut [u8; N], v: &[u8; N]) { *<H>::from_bytes_mut(b) = <H>::from_byte_array(*v) }
            #[export_name = concat!("x_", $s, "_zeros")]
            pub fn zeros(out: &mut [u8; N]) { *out = <H>::all_zeros().to_byte_array() }
            #[cfg(feature = "alloc")]
            #[export_name = concat!("x_", $s, "_tovec")]
            pub fn to_vec(h: &H, out: &mut [u8; N]) -> usize { let v = h.to_bytes(); let n = v.len(); out.copy_from_slice(&v); core::mem::forget(v); n }
            #[cfg(feature = "schemars")]
            #[export_name = concat!("j_", $s, "_schema")]
            pub fn schema(g: &mut schemars::gen::SchemaGenerator, s: &mut Sink, out: &mut [u64; 8]) { crate::js::schema::<H>(g, s, out) }
            #[cfg(feature = "schemars")]
            #[export_name = concat!("j_", $s, "_id")]
            pub fn schema_id(s: &mut Sink) -> bool { crate::js::id::<H>(s) }
        };
    };
}

macro_rules! refarray {
    ($s:literal, $H:ty, $N:expr) => {
        const _: () = {
            #[export_name = concat!("c_ty_", $s, "_len")]
            pub static LEN: usize = <$H>::LEN as usize;
            #[export_name = concat!("x_", $s, "_asrefarray")]
            pub fn as_ref_array(h: &$H, out: &mut [u8; $N]) { let r: &[u8; $N] = h.as_ref(); *out = *r; }
            #[export_name = concat!("x_", $s, "_rangeincl")]
            pub fn rangeincl(h: &$H, a: usize, b: usize, out: &mut [u8; $N]) -> usize { let r = &h[a..=b]; out[..r.len()].copy_from_slice(r); r.len() }
        };
    };
}

macro_rules! plain {
    ($s:literal, $m:ident, $N:expr) => {
        full!($s, $m::Hash, $N);
        refarray!($s, $m::Hash, $N);
    };
}
plain!("sha1", sha1, 20);
plain!("sha256", sha256, 32);
plain!("sha384", sha384, 48);
plain!("sha512", sha512, 64);
plain!("sha512_256", sha512_256, 32);
plain!("ripemd160", ripemd160, 20);
plain!("siphash24", siphash24, 8);
full!("tagA", sha256t::Hash<TagA>, 32);
refarray!("tagA", sha256t::Hash<TagA>, 32);
full!("tagB", sha256t::Hash<TagB>, 32);
full!("hmac8", hmac::Hash<8>, 8);
full!("hmac20", hmac::Hash<20>, 20);
full!("hmac32", hmac::Hash<32>, 32);
full!("hmac48", hmac::Hash<48>, 48);
full!("hmac64", hmac::Hash<64>, 64);
common!("mid", sha256::Midstate, 32);

#[export_name = "x_mid_field"]
pub fn mid_field(h: &sha256::Midstate, out: &mut [u8; 32]) { *out = h.0 }
#[export_name = "o_mid_default"]
pub fn mid_default(out: &mut [u8; 32]) { *out = sha256::Midstate::default().to_byte_array() }
#[export_name = "o_tagA_default"]
pub fn tag_default(out: &mut [u8; 32]) { *out = sha256t::Hash::<TagA>::default().to_byte_array() }

#[export_name = "x_err_new"]
pub fn err_new(got: usize, expected: usize, out: &mut [usize; 4]) { err_out(FromSliceError::new(got, expected), out) }
#[export_name = "x_err_eq"]
pub fn err_eq(a: usize, b: usize, c: usize, d: usize) -> bool { FromSliceError::new(a, b) == FromSliceError::new(c, d) }
#[export_name = "f_err_display"]
pub fn err_display(got: usize, expected: usize, s: &mut Sink) -> bool { write!(s, "{}", FromSliceError::new(got, expected)).is_ok() }

#[export_name = "h_fixedeq"]
pub fn fixed_eq(a: &[u8], b: &[u8]) -> bool { chf::cmp::fixed_time_eq(a, b) }

// ---------------------------------------------------------------- writers
#[cfg(feature = "io")]
macro_rules! writer {
    ($s:literal, $E:ty) => {
        const _: () = {
            #[export_name = concat!("w_", $s, "_bwrite")]
            pub fn bwrite(e: &mut $E, d: &[u8], n: &mut usize) -> bool { match bitcoin_io::Write::write(e, d) { Ok(k) => { *n = k; true } Err(_) => false } }
            #[export_name = concat!("w_", $s, "_bwriteall")]
            pub fn bwriteall(e: &mut $E, d: &[u8]) -> bool { bitcoin_io::Write::write_all(e, d).is_ok() }
            #[export_name = concat!("w_", $s, "_bflush")]
            pub fn bflush(e: &mut $E) -> bool { bitcoin_io::Write::flush(e).is_ok() }
            #[cfg(feature = "std")]
            #[export_name = concat!("w_", $s, "_swrite")]
            pub fn swrite(e: &mut $E, d: &[u8], n: &mut usize) -> bool { match std::io::Write::write(e, d) { Ok(k) => { *n = k; true } Err(x) => { core::mem::forget(x); false } } }
            #[cfg(feature = "std")]
            #[export_name = concat!("w_", $s, "_swriteall")]
            pub fn swriteall(e: &mut $E, d: &[u8]) -> bool { match std::io::Write::write_all(e, d) { Ok(()) => true, Err(x) => { core::mem::forget(x); false } } }
            #[cfg(feature = "std")]
            #[export_name = concat!("w_", $s, "_svec")]
            pub fn svec(e: &mut $E, a: &[u8], b: &[u8], n: &mut usize) -> bool { match std::io::Write::write_vectored(e, &[std::io::IoSlice::new(a), std::io::IoSlice::new(b)]) { Ok(k) => { *n = k; true } Err(x) => { core::mem::forget(x); false } } }
            #[cfg(feature = "std")]
            #[export_name = concat!("w_", $s, "_sfmt")]
            pub fn sfmt(e: &mut $E, d: &[u8]) -> bool { let t = unsafe { core::str::from_utf8_unchecked(d) }; match std::io::Write::write_fmt(e, format_args!("{}", t)) { Ok(()) => true, Err(x) => { core::mem::forget(x); false } } }
            #[cfg(feature = "std")]
            #[export_name = concat!("w_", $s, "_sflush")]
            pub fn sflush(e: &mut $E) -> bool { match std::io::Write::flush(e) { Ok(()) => true, Err(x) => { core::mem::forget(x); false } } }
        };
    };
}
#[cfg(feature = "io")]
mod writers {
    use super::*;
    writer!("sha1", sha1::Engine);
    writer!("sha256", sha256::Engine);
    writer!("sha512", sha512::Engine);
    writer!("ripemd160", ripemd160::Engine);
    writer!("siphash24", siphash24::Engine);
    writer!("tagA", sha256t::Engine<TagA>);
    writer!("hmac_sha1", hmac::Engine<sha1::Engine>);
    writer!("hmac_sha256", hmac::Engine<sha256::Engine>);
    writer!("hmac_sha384", hmac::Engine<sha384::Engine>);
    writer!("hmac_sha512", hmac::Engine<sha512::Engine>);
    writer!("hmac_sha512_256", hmac::Engine<sha512_256::Engine>);
    writer!("hmac_ripemd160", hmac::Engine<ripemd160::Engine>);
    writer!("hmac_siphash24", hmac::Engine<siphash24::Engine>);
}

// ---------------------------------------------------------------- CPU feature numbers
#[cfg(all(feature = "std", target_arch = "x86_64"))]
mod cpu {
    macro_rules! cpu { ($($n:ident = $s:tt),* $(,)?) => { $(
        #[export_name = concat!("cpu_", $s)]
        pub fn $n() -> bool { std::is_x86_feature_detected!($s) }
    )* } }
    cpu!(sse3 = "sse3", ssse3 = "ssse3", sse41 = "sse4.1", sse42 = "sse4.2", sha = "sha", avx = "avx", avx2 = "avx2",
         bmi1 = "bmi1", bmi2 = "bmi2", aes = "aes", pclmul = "pclmulqdq", avx512f = "avx512f", popcnt = "popcnt", fma = "fma",
         adx = "adx", lzcnt = "lzcnt", sse4a = "sse4a", f16c = "f16c");
}
