//! Entry points for the analyser: thin wrappers over the *public* API of `chf`, never executed.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::all, private_interfaces, improper_ctypes_definitions)]

use core::mem::MaybeUninit;
use core::ptr;

#[cfg(feature = "alloc")]
extern crate alloc;

use chf::HashEngine;

/// Entry points for one engine type.
macro_rules! engine {
    ($s:expr, $E:ty, $N:expr) => {
        const _: () = {
            type E = $E;
            #[allow(unused_imports)]
            use core::ptr;
            type M = <E as HashEngine>::Midstate;
            #[export_name = concat!("c_", $s, "_esize")]
            pub static ESIZE: usize = core::mem::size_of::<E>();
            #[export_name = concat!("c_", $s, "_ealign")]
            pub static EALIGN: usize = core::mem::align_of::<E>();
            #[export_name = concat!("c_", $s, "_msize")]
            pub static MSIZE: usize = core::mem::size_of::<M>();
            #[export_name = concat!("c_", $s, "_block")]
            pub static BLOCK: usize = <E as HashEngine>::BLOCK_SIZE;
            #[export_name = concat!("c_", $s, "_dlen")]
            pub static DLEN: usize = core::mem::size_of::<<E as HashEngine>::Digest>();

            #[export_name = concat!("h_", $s, "_default")]
            pub fn default(out: &mut MaybeUninit<E>) { out.write(<E as Default>::default()); }
            #[export_name = concat!("h_", $s, "_new")]
            pub fn new(out: &mut MaybeUninit<E>) { out.write(<E as HashEngine>::new()); }
            #[export_name = concat!("h_", $s, "_input")]
            pub fn input(e: &mut E, d: &[u8]) { <E as HashEngine>::input(e, d) }
            #[export_name = concat!("h_", $s, "_nbytes")]
            pub fn nbytes(e: &E) -> usize { <E as HashEngine>::n_bytes_hashed(e) }
            #[export_name = concat!("h_", $s, "_finalize")]
            pub fn finalize(e: *const E, out: &mut [u8; $N]) {
                *out = <E as HashEngine>::finalize(unsafe { ptr::read(e) })
            }
            #[export_name = concat!("h_", $s, "_clone")]
            pub fn clone(e: &E, out: &mut MaybeUninit<E>) { out.write(e.clone()); }
            #[export_name = concat!("h_", $s, "_clonefrom")]
            pub fn clone_from(e: &mut E, src: &E) { e.clone_from(src); }
            #[export_name = concat!("h_", $s, "_midstate")]
            pub fn midstate(e: &E, out: &mut MaybeUninit<M>) {
                out.write(<E as HashEngine>::midstate(e));
            }
            #[export_name = concat!("h_", $s, "_frommid")]
            pub fn frommid(m: *const M, len: usize, out: &mut MaybeUninit<E>) {
                out.write(<E as HashEngine>::from_midstate(unsafe { ptr::read(m) }, len));
            }
            #[export_name = concat!("h_", $s, "_ehash")]
            pub fn ehash(d: &[u8], out: &mut [u8; $N]) { *out = <E as HashEngine>::hash(d) }
            #[export_name = concat!("h_", $s, "_chunks3")]
            pub fn chunks3(a: &[u8], b: &[u8], c: &[u8], out: &mut [u8; $N]) {
                *out = <E as HashEngine>::hash_byte_chunks([a, b, c])
            }
            #[export_name = concat!("h_", $s, "_chunks1")]
            pub fn chunks1(a: &[u8], out: &mut [u8; $N]) {
                *out = <E as HashEngine>::hash_byte_chunks(core::iter::once(a))
            }
            #[export_name = concat!("h_", $s, "_chunks0")]
            pub fn chunks0(out: &mut [u8; $N]) {
                *out = <E as HashEngine>::hash_byte_chunks(core::iter::empty::<&[u8]>())
            }
        };
    };
}

pub(crate) use engine;

/// Entry points for a hash type tied to one engine.
macro_rules! hasht {
    ($s:literal, $H:ty, $E:ty, $N:expr) => {
        const _: () = {
            type H = $H;
            #[allow(unused_imports)]
            use core::ptr;
            #[export_name = concat!("h_", $s, "_hash")]
            pub fn hash(d: &[u8], out: &mut [u8; $N]) { *out = <H>::hash(d).to_byte_array() }
            #[export_name = concat!("h_", $s, "_hengine")]
            pub fn hengine(out: &mut MaybeUninit<$E>) { out.write(<H>::engine()); }
            #[export_name = concat!("h_", $s, "_fromengine")]
            pub fn fromengine(e: *const $E, out: &mut [u8; $N]) {
                *out = <H>::from_engine(unsafe { ptr::read(e) }).to_byte_array()
            }
            #[export_name = concat!("c_", $s, "_hlen")]
            pub static HLEN: usize = <H>::LEN;
        };
    };
}

pub(crate) use hasht;

macro_rules! alg {
    ($s:literal, $m:ident, $N:expr) => {
        crate::engine!($s, chf::$m::Engine, $N);
        crate::hasht!($s, chf::$m::Hash, chf::$m::Engine, $N);
        // HMAC over it.
        crate::engine!(concat!("hmac_", $s), chf::hmac::Engine<chf::$m::Engine>, $N);
        hmac!($s, chf::$m::Engine, $N);
    };
}

macro_rules! hmac {
    ($s:literal, $E:ty, $N:expr) => {
        const _: () = {
            #[export_name = concat!("h_hmac_", $s, "_key")]
            pub fn key(k: &[u8], out: &mut MaybeUninit<chf::hmac::Engine<$E>>) {
                out.write(chf::hmac::Engine::<$E>::new(k));
            }
            #[export_name = concat!("h_hmac_", $s, "_fromengine")]
            pub fn fromengine(e: *const chf::hmac::Engine<$E>, out: &mut [u8; $N]) {
                *out = chf::hmac::Hash::<$N>::from_engine(unsafe { ptr::read(e) }).to_byte_array()
            }
            #[export_name = concat!("h_hmac_", $s, "_hengine")]
            pub fn hengine(out: &mut MaybeUninit<chf::hmac::Engine<$E>>) {
                out.write(chf::hmac::Hash::<$N>::engine());
            }
        };
    };
}

alg!("sha1", sha1, 20);
alg!("sha256", sha256, 32);
alg!("sha384", sha384, 48);
alg!("sha512", sha512, 64);
alg!("sha512_256", sha512_256, 32);
alg!("ripemd160", ripemd160, 20);
alg!("siphash24", siphash24, 8);

// ---------------------------------------------------------------- SipHash with keys
mod sip {
    use chf::siphash24::{Engine, Hash};
    use core::mem::MaybeUninit;
    use core::ptr;

    #[export_name = "h_sip_withkeys"]
    pub fn with_keys(k0: u64, k1: u64, out: &mut MaybeUninit<Engine>) { out.write(Engine::with_keys(k0, k1)); }
    #[export_name = "h_sip_inew"]
    pub fn inew(out: &mut MaybeUninit<Engine>) { out.write(Engine::new()); }
    #[export_name = "h_sip_keys"]
    pub fn keys(e: &Engine, out: &mut [u64; 2]) { let (a, b) = e.keys(); *out = [a, b]; }
    #[export_name = "h_sip_hashkeys"]
    pub fn hash_keys(k0: u64, k1: u64, d: &[u8], out: &mut [u8; 8]) { *out = Hash::hash_with_keys(k0, k1, d).to_byte_array() }
    #[export_name = "h_sip_hashu64"]
    pub fn hash_u64(k0: u64, k1: u64, d: &[u8]) -> u64 { Hash::hash_to_u64_with_keys(k0, k1, d) }
    #[export_name = "h_sip_engu64"]
    pub fn eng_u64(e: *const Engine) -> u64 { Hash::from_engine_to_u64(unsafe { ptr::read(e) }) }
    #[export_name = "h_sip_asu64"]
    pub fn as_u64(b: &[u8; 8]) -> u64 { Hash::from_byte_array(*b).as_u64() }
    #[export_name = "h_sip_fromu64"]
    pub fn from_u64(v: u64, out: &mut [u8; 8]) { *out = Hash::from_u64(v).to_byte_array() }
}

// ---------------------------------------------------------------- tagged hashes, const SHA-256
mod tagged {
    use chf::sha256::{self, Midstate};
    use chf::sha256t::{Engine, Hash, Tag};
    use chf::HashEngine;
    use core::mem::MaybeUninit;
    use core::ptr;

    // The tag types implement nothing but Clone.
    macro_rules! tag {
        ($t:ident, $tag:expr) => {
            #[derive(Clone)]
            pub struct $t;
            impl Tag for $t {
                fn engine() -> Engine<Self> { Engine::from_midstate(Midstate::hash_tag($tag), 64) }
            }
        };
    }
    tag!(TagA, b"TapLeaf");
    tag!(TagB, b"");
    tag!(TagC, b"0123456789abcdef0123456789abcdef0123456789abcdef0123456");

    super::engine!("tagA", Engine<TagA>, 32);
    super::hasht!("tagA", Hash<TagA>, Engine<TagA>, 32);
    super::engine!("tagB", Engine<TagB>, 32);
    super::hasht!("tagB", Hash<TagB>, Engine<TagB>, 32);
    super::engine!("tagC", Engine<TagC>, 32);
    super::hasht!("tagC", Hash<TagC>, Engine<TagC>, 32);

    // HMAC over a tagged hash.
    super::engine!("hmac_tagA", chf::hmac::Engine<Engine<TagA>>, 32);
    hmac!("tagA", Engine<TagA>, 32);

    #[export_name = "h_hashtag"]
    pub fn hash_tag(tag: &[u8], out: &mut [u8; 32]) { *out = Midstate::hash_tag(tag).to_byte_array() }
    #[export_name = "h_consthash"]
    pub fn const_hash(d: &[u8], out: &mut [u8; 32]) { *out = sha256::Hash::const_hash(d).to_byte_array() }
    #[export_name = "h_tagmid"]
    pub fn from_mid(m: &[u8; 32], out: &mut MaybeUninit<Engine<TagA>>) {
        out.write(<Engine<TagA> as HashEngine>::from_midstate(Midstate::from_byte_array(*m), 64));
    }
    // Evaluated by the compiler.
    #[export_name = "c_consttag_a"]
    pub static CA: [u8; 32] = Midstate::hash_tag(b"TapLeaf").0;
    #[export_name = "c_consttag_b"]
    pub static CB: [u8; 32] = Midstate::hash_tag(b"").0;
    #[export_name = "c_consttag_c"]
    pub static CC: [u8; 32] = Midstate::hash_tag(b"0123456789abcdef0123456789abcdef0123456789abcdef0123456").0;
}

mod types;
#[cfg(feature = "serde")]
mod serd;
#[cfg(feature = "schemars")]
mod js;
