//! Type-level witnesses: this crate type-checks exactly when the facts below hold for /repo.
//! Never executed (checked with `cargo check` only).
#![no_std]
#![allow(dead_code, clippy::all)]

#[allow(unused_imports)]
use chf::{cmp, hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, FromSliceError, HashEngine};

/// A tag that implements nothing beyond what the trait asks for.
#[derive(Clone)]
pub struct Bare;
impl sha256t::Tag for Bare {
    fn engine() -> sha256t::Engine<Self> { sha256t::Engine::from_midstate(sha256::Midstate::hash_tag(b"witness"), 64) }
}

// The interface that every configuration offers.
macro_rules! plain {
    ($m:ident, $n:literal) => {
        pub mod $m {
            use chf::{$m, FromSliceError, HashEngine};
            fn all(d: &[u8], a: [u8; $n], text: &str) -> Result<[u8; $n], FromSliceError> {
                let h: $m::Hash = $m::Hash::hash(d);
                let mut e = $m::Hash::engine();
                HashEngine::input(&mut e, d);
                let _: usize = e.n_bytes_hashed();
                let f: $m::Hash = $m::Hash::from_engine(e);
                let _: [u8; $n] = <$m::Engine as Default>::default().finalize();
                let _ = $m::Hash::from_slice(d)?;
                let mut g = $m::Hash::from_byte_array(a);
                let _: &$m::Hash = $m::Hash::from_bytes_ref(&a);
                let mut b = a;
                let _: &mut $m::Hash = $m::Hash::from_bytes_mut(&mut b);
                let _ = text.parse::<$m::Hash>().is_ok();
                let _: (&[u8], &[u8]) = (g.as_ref(), &h[..]);
                let _: &[u8; $n] = g.as_ref();
                let _: (u8, &[u8], &[u8], &[u8], &[u8]) = (h[0], &h[1..2], &h[1..], &h[..2], &h[1..=2]);
                const _: usize = $m::Hash::LEN;
                let _ = (h == f, h < f, h.cmp(&f));
                g = $m::Hash::all_zeros();
                let _ = core::format_args!("{} {:x} {:X} {:?}", g, g, g, g);
                let _ = <$m::Engine as HashEngine>::hash_byte_chunks(core::iter::once(d));
                let _ = (g.as_byte_array(), g.as_bytes());
                Ok(g.to_byte_array())
            }
        }
    };
}
mod api {
    plain!(sha1, 20);
    plain!(sha256, 32);
    plain!(sha384, 48);
    plain!(sha512, 64);
    plain!(sha512_256, 32);
    plain!(ripemd160, 20);
    plain!(siphash24, 8);
    fn rest(d: &[u8], text: &str, a: [u8; 32]) -> Result<bool, chf::FromSliceError> {
        use super::Bare;
        use chf::{cmp, hmac, sha256, sha256t, siphash24, HashEngine};
        fn value<T: Copy + Clone + Eq + Ord + core::hash::Hash + core::str::FromStr + core::fmt::Display + core::fmt::Debug
            + core::fmt::LowerHex + core::fmt::UpperHex + AsRef<[u8]> + core::ops::Index<usize, Output = u8>
            + core::ops::Index<core::ops::Range<usize>, Output = [u8]> + core::ops::Index<core::ops::RangeFrom<usize>, Output = [u8]>
            + core::ops::Index<core::ops::RangeTo<usize>, Output = [u8]> + core::ops::Index<core::ops::RangeFull, Output = [u8]>>(t: &str) -> bool
        where <T as core::str::FromStr>::Err: core::fmt::Display + core::fmt::Debug { t.parse::<T>().is_ok() }
        let _ = (value::<hmac::Hash<20>>(text), value::<hmac::Hash<64>>(text), value::<sha256t::Hash<Bare>>(text), value::<sha256::Midstate>(text), value::<siphash24::Hash>(text));
        // HMAC
        let mut e = hmac::Engine::<sha256::Engine>::new(d);
        e.input(d);
        let m: hmac::Midstate<sha256::Engine> = e.midstate();
        let (_, _): (sha256::Midstate, sha256::Midstate) = (m.inner, m.outer);
        let _ = (hmac::Engine::<sha256::Engine>::from_midstate(e.midstate(), 64).n_bytes_hashed(), hmac::Engine::<siphash24::Engine>::default().finalize());
        let h: hmac::Hash<32> = hmac::Hash::from_engine(e.clone());
        let _: sha256::Engine = hmac::Hash::<32>::engine::<sha256::Engine>();
        let mut b = a;
        let _: (&hmac::Hash<32>, [u8; 32]) = (hmac::Hash::from_bytes_ref(&a), hmac::Hash::<32>::from_slice(d)?.to_byte_array());
        let _: &mut hmac::Hash<32> = hmac::Hash::from_bytes_mut(&mut b);
        let _: (&[u8; 32], &[u8], hmac::Hash<32>, hmac::Hash<32>) = (h.as_byte_array(), h.as_bytes(), hmac::Hash::all_zeros(), hmac::Hash::from_byte_array(a));
        // tagged
        let t: sha256t::Hash<Bare> = sha256t::Hash::hash(d);
        let mut e: sha256t::Engine<Bare> = sha256t::Hash::<Bare>::engine();
        e.input(d);
        let _: (sha256::Midstate, usize) = (e.midstate(), e.n_bytes_hashed());
        let _ = (sha256t::Hash::<Bare>::from_engine(e.clone()), sha256t::Engine::<Bare>::default().finalize(), sha256t::Hash::<Bare>::default());
        let _: (&sha256t::Hash<Bare>, [u8; 32]) = (sha256t::Hash::from_bytes_ref(&a), sha256t::Hash::<Bare>::from_slice(d)?.to_byte_array());
        let _: &mut sha256t::Hash<Bare> = sha256t::Hash::from_bytes_mut(&mut b);
        let _: (&[u8; 32], &[u8], usize) = (t.as_byte_array(), t.as_bytes(), sha256t::Hash::<Bare>::LEN);
        let _: (sha256t::Hash<Bare>, sha256t::Hash<Bare>) = (sha256t::Hash::all_zeros(), sha256t::Hash::from_byte_array(a));
        // SipHash
        let _ = (siphash24::Hash::hash_with_keys(1, 2, d), siphash24::Hash::hash_to_u64_with_keys(1, 2, d));
        let k: (u64, u64) = siphash24::Engine::with_keys(1, 2).keys();
        let _: (u64, u64) = (siphash24::Hash::from_engine_to_u64(siphash24::Engine::new()), siphash24::Hash::from_u64(k.0).as_u64());
        let s: siphash24::State = siphash24::Engine::new().midstate();
        let _ = siphash24::Engine::from_midstate(s, 8);
        const _: siphash24::Engine = siphash24::Engine::with_keys(1, 2);
        // SHA-256
        let m: sha256::Midstate = HashEngine::midstate(&sha256::Engine::default());
        let _: [u8; 32] = sha256::Midstate::from_slice(d)?.to_byte_array();
        let _ = (sha256::Midstate::default(), <sha256::Midstate as chf::hex::FromHex>::from_hex(text).is_ok(), sha256::Engine::from_midstate(m, 64));
        const _: sha256::Hash = sha256::Hash::const_hash(b"");
        const _: sha256::Midstate = sha256::Midstate::hash_tag(b"tag");
        const _: sha256::Midstate = sha256::Midstate::from_byte_array([0; 32]);
        const _: usize = sha256::BLOCK_SIZE + <sha256::Engine as HashEngine>::BLOCK_SIZE + <hmac::Engine<sha256::Engine> as HashEngine>::BLOCK_SIZE;
        let x = chf::FromSliceError::new(1, 2);
        let _: (usize, usize) = (x.expected_length(), x.invalid_length());
        let _ = core::format_args!("{} {:?}", x, x);
        Ok(cmp::fixed_time_eq(h.as_ref(), t.as_ref()))
    }
}

// What each optional feature adds.
macro_rules! each { ($f:ident) => { const _: () = {
    $f::<sha1::Hash>(); $f::<sha256::Hash>(); $f::<sha384::Hash>(); $f::<sha512::Hash>(); $f::<sha512_256::Hash>(); $f::<ripemd160::Hash>();
    $f::<siphash24::Hash>(); $f::<hmac::Hash<20>>(); $f::<hmac::Hash<64>>(); $f::<sha256t::Hash<Bare>>();
}; }; }
macro_rules! engines { ($f:ident) => { const _: () = {
    $f::<sha1::Engine>(); $f::<sha256::Engine>(); $f::<sha512::Engine>(); $f::<ripemd160::Engine>(); $f::<siphash24::Engine>();
    $f::<sha256t::Engine<Bare>>(); $f::<hmac::Engine<sha256::Engine>>(); $f::<hmac::Engine<sha384::Engine>>(); $f::<hmac::Engine<siphash24::Engine>>();
}; }; }
#[cfg(any(feature = "alloc", feature = "std"))]
mod with_alloc {
    use super::*;
    extern crate alloc;
    fn vectors(a: sha1::Hash, b: sha256::Hash, c: sha384::Hash, d: sha512::Hash, e: sha512_256::Hash, f: ripemd160::Hash, g: siphash24::Hash, h: hmac::Hash<20>, t: sha256t::Hash<Bare>) -> [alloc::vec::Vec<u8>; 9] {
        [a.to_bytes(), b.to_bytes(), c.to_bytes(), d.to_bytes(), e.to_bytes(), f.to_bytes(), g.to_bytes(), h.to_bytes(), t.to_bytes()]
    }
}
#[cfg(feature = "std")]
mod with_std {
    use super::*;
    extern crate std;
    const fn writer<T: std::io::Write>() {}
    const fn error<T: std::error::Error + Send + Sync + 'static>() {}
    engines!(writer);
    const _: () = { error::<FromSliceError>(); error::<<sha256::Hash as core::str::FromStr>::Err>(); };
}
#[cfg(any(feature = "bitcoin-io", feature = "io", feature = "std"))]
mod with_io {
    use super::*;
    const fn writer<T: bio::Write>() {}
    engines!(writer);
}
#[cfg(feature = "serde")]
mod with_serde {
    use super::*;
    const fn serde<T: chf::serde::Serialize + for<'de> chf::serde::Deserialize<'de>>() {}
    each!(serde);
    const _: () = serde::<sha256::Midstate>();
}
#[cfg(feature = "schemars")]
mod with_schemars {
    use super::*;
    const fn schema<T: schemars::JsonSchema>() {}
    each!(schema);
}

/// References to byte arrays are reinterpreted as references to these types, so each must be
/// declared to have the layout of its array (`deny(improper_ctypes)` rejects any that is not).
#[cfg(feature = "w-layout")]
mod layout {
    use super::*;
    #[deny(improper_ctypes)]
    extern "C" {
        fn w1(_: *const sha1::Hash);
        fn w2(_: *const sha256::Hash);
        fn w3(_: *const sha384::Hash);
        fn w4(_: *const sha512::Hash);
        fn w5(_: *const sha512_256::Hash);
        fn w6(_: *const ripemd160::Hash);
        fn w7(_: *const siphash24::Hash);
        fn w8(_: *const hmac::Hash<8>);
        fn w9(_: *const hmac::Hash<64>);
        fn w10(_: *const sha256t::Hash<Bare>);
    }
}

#[cfg(feature = "w-order")]
mod order {
    use super::*;
    use core::hash::Hash as H;
    const fn values<T: Copy + Clone + PartialEq + Eq + PartialOrd + Ord + H>() {}
    const fn default<T: Default>() {}
    const _: () = {
        values::<sha1::Hash>(); values::<sha256::Hash>(); values::<sha384::Hash>(); values::<sha512::Hash>();
        values::<sha512_256::Hash>(); values::<ripemd160::Hash>(); values::<siphash24::Hash>();
        values::<hmac::Hash<20>>(); values::<sha256t::Hash<Bare>>(); values::<sha256::Midstate>();
        default::<sha256t::Hash<Bare>>(); default::<sha256::Midstate>();
    };
}

#[cfg(feature = "w-threads")]
mod threads {
    use super::*;
    const fn free<T: Send + Sync + Unpin + 'static>() {}
    macro_rules! free { ($($t:ty),*) => { const _: () = { $(free::<$t>();)* }; } }
    free!(sha1::Hash, sha256::Hash, sha384::Hash, sha512::Hash, sha512_256::Hash, ripemd160::Hash, siphash24::Hash,
        hmac::Hash<32>, sha256t::Hash<Bare>, sha256::Midstate, FromSliceError,
        sha1::Engine, sha256::Engine, sha384::Engine, sha512::Engine, sha512_256::Engine, ripemd160::Engine, siphash24::Engine,
        sha256t::Engine<Bare>, hmac::Engine<sha1::Engine>, hmac::Engine<sha512::Engine>, hmac::Engine<siphash24::Engine>);
}
