#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
CORE = ["src/sha1.rs", "src/sha256.rs", "src/sha384.rs", "src/sha512.rs", "src/sha512_256.rs", "src/ripemd160.rs"]
p("C01", "Digests match the published standards for every message",
  "For every byte string, hashing it with SHA-1, SHA-256, SHA-384, SHA-512, SHA-512/256 or RIPEMD-160 returns exactly the digest the published standard (FIPS 180-4, ISO/IEC 10118-3) defines for that byte string. This holds for every content and every length, including lengths at the padding boundaries and total lengths beyond 2^32 bits or bytes (up to 2^61 bytes, on 64-bit targets).",
  ["inputs"], "all byte contents; every length residue modulo the block size; every number of preceding blocks",
  "The tests hash about ten fixed ASCII strings per function; most residues of the length, multi-block inputs and long total lengths are never hashed, and no finite sample covers the contents.",
  CORE + ["src/internal_macros.rs"],
  [("compression functions", "process_block in each module"), ("padding and length encoding", "HashEngine::finalize in each module"), ("block buffering", "engine_input_impl! in src/internal_macros.rs")],
  [dict(name="h, length, buffer", meaning="chaining value, bytes input so far, partial block", where="Engine structs")],
  ["Hash::hash", "Engine::finalize"])
p("C02", "SipHash-2-4 matches its specification for every key and message",
  "For every pair of 64-bit keys and every byte string, the SipHash engine and all keyed and unkeyed one-call helpers return the value SipHash-2-4 defines. The 64-bit integer forms are the little-endian reading of the same eight bytes, converting between the two forms loses nothing, and an engine reports the keys it was created with.",
  ["inputs"], "all key pairs, all byte contents, every length residue modulo 8 and 256",
  "Tests use one fixed key and 64 fixed messages fed in two ways; other keys, lengths over 63 and the integer finaliser reached with a pending tail are not exercised.",
  ["src/siphash24.rs"],
  [("compression rounds", "compress!, c_rounds, d_rounds"), ("tail assembly", "u8to64_le, load_int_le!"), ("final block with length byte", "finalize and from_engine_to_u64")],
  [dict(name="state, tail, ntail, length", meaning="SipHash lanes, pending bytes, their number, total bytes", where="siphash24::Engine")],
  ["Hash::hash_with_keys", "Hash::hash_to_u64_with_keys", "Hash::from_engine_to_u64"])
p("C03", "HMAC equals RFC 2104 for every key, message and hash function",
  "For every key of any length, every message and each hash function of the library, the keyed engine produces H((K xor opad) || H((K xor ipad) || message)) with K zero-padded to the block size, or replaced by its digest first when it is longer than one block. A default-constructed keyed engine is the one with the empty key.",
  ["inputs", "configurations"], "all keys (shorter than, equal to and longer than one block), all messages, all underlying hash functions",
  "HMAC tests use SHA-256 (and a few SHA-512 serde constants) with a handful of keys; no key exactly one block long, and no SHA-1, RIPEMD-160, SHA-384, SHA-512/256 or SipHash instantiation.",
  ["src/hmac.rs"], [("key preparation", "Engine::new"), ("outer hash", "HashEngine::finalize for hmac::Engine")],
  [dict(name="iengine, oengine", meaning="inner and outer hash engines", where="hmac::Engine")], ["hmac::Engine::finalize", "hmac::Hash::from_engine"])
p("C04", "How the bytes are fed never changes the result",
  "For every byte string and every way of cutting it into consecutive chunks (empty chunks included), feeding the chunks one by one, through the chunk iterator helper or in one call gives the same digest, and the reported count of input bytes grows by exactly their total length (a fresh plain engine reports zero; a keyed engine's count includes the key block and a tagged engine's the 64-byte tag prefix). Cloning a part-fed engine gives an independent engine with the same continuation: using one does not influence the other.",
  ["inputs", "histories"], "all chunkings of all byte strings, at every fill level of the internal buffer",
  "Tests feed each vector at once and byte by byte only; a chunk that fills, just misses or straddles a buffer boundary at each fill level is not covered, nor are clones, byte counts and the chunk iterator.",
  ["src/internal_macros.rs", "src/siphash24.rs", "src/lib.rs", "src/hmac.rs", "src/sha256t.rs", "src/sha384.rs", "src/sha512_256.rs"],
  [("buffering loop", "engine_input_impl!"), ("SipHash tail handling", "siphash24 input"), ("default methods", "HashEngine::hash, hash_byte_chunks")],
  [dict(name="buffer/length, tail/ntail", meaning="partially filled block", where="Engine structs")], ["HashEngine::input", "HashEngine::n_bytes_hashed", "Clone"])
p("C05", "Exporting and resuming a midstate is transparent",
  "Taking the midstate of any engine after a whole number of blocks and building a new engine from it with the number of bytes already input gives an engine that is indistinguishable from the original for all further input, its digest and its byte count; this holds for every hash function, for HMAC and for tagged hashes. A midstate exported from a resumed engine is the one it was built from, and the block-based functions refuse a length that is not a multiple of the block size by panicking.",
  ["inputs", "histories"], "all chaining values, all block counts, all continuations",
  "Only SHA-256 resumption is tested, for one constant; the code for the other functions is not executed by any test (four of them were broken on the pinned commit).",
  CORE + ["src/hmac.rs", "src/siphash24.rs", "src/sha256t.rs"],
  [("state export", "HashEngine::midstate"), ("state import and alignment check", "HashEngine::from_midstate")],
  [dict(name="Midstate", meaning="serialised chaining value", where="sha256::Midstate, byte arrays, siphash24::State, hmac::Midstate")], ["HashEngine::midstate", "HashEngine::from_midstate"])
p("C06", "All implementation variants compute the same function",
  "For every input, the hardware-accelerated path and the portable path chosen at run time, the size-optimised and the speed-optimised builds, the builds with and without the standard library, and the compile-time evaluable SHA-256 all return the same result as the published function. No result depends on CPU features or on enabled crate features.",
  ["inputs", "configurations"], "all inputs, all CPU feature sets, all crate feature sets",
  "Each test run executes the one variant selected by the machine and the feature set; the test machine's CPU always takes the same branch, so the other path is never run in that build.",
  ["src/sha256.rs", "src/sha512.rs", "src/ripemd160.rs", "src/sha1.rs"],
  [("runtime dispatch and SHA-NI intrinsics", "sha256 process_block, process_block_simd_x86_intrinsics"), ("round macros", "small_hash / fast_hash modules"), ("const evaluation", "sha256 const_hash")],
  None, ["Hash::hash", "Hash::const_hash", "Midstate::hash_tag"])
p("C07", "Tagged hashes are SHA-256 of the doubled tag hash and the message",
  "For every tag, the tag midstate equals the SHA-256 state after the 64 bytes SHA256(tag) || SHA256(tag), and the compile-time SHA-256 equals the ordinary one for every input. A tagged hash type whose tag is started from that midstate returns, for every message and through each of its entry points, SHA256(SHA256(tag) || SHA256(tag) || message).",
  ["inputs"], "all tags of all lengths, all messages, all entry points",
  "Tests cover one tag and one message; tag lengths at the padding boundaries and every other entry point of the tagged type are not covered.",
  ["src/sha256.rs", "src/sha256t.rs"], [("const SHA-256", "Midstate::const_hash, Midstate::hash_tag"), ("tagged engine", "sha256t::Engine, sha256t::Hash")],
  None, ["Midstate::hash_tag", "sha256t::Hash::hash"])
p("C08", "Byte conversions are lossless and length-checked",
  "Every hash and midstate type converts to and from its byte array, byte slice, byte vector, reference and indexing forms without changing, reordering or dropping any byte, and all these views show the same bytes; the all-zero value is all zero bytes. Construction from a slice succeeds exactly when the slice has the type's digest length, and otherwise returns an error that reports both the received and the expected length correctly.",
  ["inputs"], "all digests, all slices of every length",
  "Conversions are only used incidentally in tests on a few values, and no test builds a hash from a slice of the wrong length or inspects the error.",
  ["src/internal_macros.rs", "src/hmac.rs", "src/sha256t.rs", "src/sha256.rs", "src/lib.rs"],
  [("conversion methods", "hash_type!, hmac::Hash, sha256t::Hash, sha256::Midstate"), ("error type", "FromSliceError in src/lib.rs")], None,
  ["from_slice", "from_byte_array", "to_byte_array", "as_byte_array", "as_bytes", "to_bytes", "from_bytes_ref", "from_bytes_mut", "AsRef", "Index"])
p("C09", "Hex text formatting and parsing are exact inverses",
  "For every digest, display and lower/upper-hex formatting print two hex digits per byte in byte order in the requested case and nothing else, except that the alternate form (which debug formatting uses, in lower case) has an 0x prefix for all types but HMAC values, which never print a prefix. Parsing accepts exactly the strings of twice the digest length made of hex digits of either case, yields the bytes they denote, and rejects every other string with an error.",
  ["inputs"], "all digests; all strings of every length near the digest length",
  "Tests format a handful of constants, mostly in lower case and for SHA-256; parsing of wrong lengths, bad characters at each position and upper case digits is not tested for the types.",
  ["src/internal_macros.rs", "src/hmac.rs", "src/sha256.rs", "src/sha256t.rs"],
  [("formatting impls", "arr_newtype_fmt_impl!, hmac::Hash fmt impls"), ("FromStr impls", "hash_trait_impls!, hmac::Hash, Midstate")], None, ["Display", "LowerHex", "UpperHex", "Debug", "FromStr"])
p("C10", "Serialisation round-trips in both format families",
  "With serde enabled, every hash and midstate value serialises as its lower-case hex text in human-readable formats and as its raw bytes in binary formats. Deserialising either form gives back the same value, and any text or byte string that is not exactly one encoding of a value of that type is rejected with an error, never a panic or a different value.",
  ["inputs", "configurations"], "all values, all malformed encodings, both format families",
  "Serde tests check one constant per type with valid encodings only; malformed input and several types are not covered.",
  ["src/serde_macros.rs", "src/hmac.rs", "src/internal_macros.rs"], [("format dispatch", "SerdeHash::serialize / deserialize"), ("visitors", "HexVisitor, BytesVisitor")], None, ["Serialize", "Deserialize"])
p("C11", "Constant-time comparison answers exactly equality",
  "For every two byte slices of equal length the fixed-time comparison returns true if and only if every byte is equal, whatever the position or the bit in which they differ, and for slices of different length it panics instead of answering.",
  ["inputs"], "all pairs of equal-length slices, all differing positions and bits; all unequal length pairs",
  "The test compares one- and two-byte slices only.",
  ["src/cmp.rs"], [("accumulate-and-fold", "fixed_time_eq")], None, ["cmp::fixed_time_eq"])
p("C12", "Control flow and memory addresses never depend on secret data",
  "For inputs of equal length, the sequence of executed branches and accessed memory addresses of hashing, keyed hashing, HMAC and the fixed-time comparison is the same whatever the contents of messages, keys and compared bytes are.",
  ["inputs"], "all pairs of equal-length inputs",
  "A functional test observes results, not the trace; a data-dependent early exit or table lookup returns the right answer for every test vector.",
  ["src/cmp.rs", "src/hmac.rs", "src/siphash24.rs"] + CORE, [("branch-free comparison", "fixed_time_eq"), ("straight-line compression functions", "process_block, compress!")], None, ["fixed_time_eq", "input", "finalize", "hmac::Engine::new"])
p("C13", "Safe callers can never trigger undefined behaviour",
  "No call sequence through the safe API reads or writes outside the buffers it was given or owns, reads uninitialised memory, makes a misaligned access or creates a reference with the wrong layout, for any input length or buffer fill level. Reference conversions between byte arrays and hash types are between types of identical layout, and code that needs optional CPU instructions is entered only after they have been detected.",
  ["inputs", "configurations", "programs"], "all safe call sequences, input lengths, fill levels and CPU feature sets",
  "An out-of-bounds read of a few bytes usually returns the right digest in a test, and tests run on one CPU.",
  ["src/siphash24.rs", "src/sha256.rs", "src/cmp.rs", "src/internal_macros.rs", "src/hmac.rs", "src/sha256t.rs"],
  [("unchecked loads", "load_int_le!, u8to64_le"), ("reference casts", "from_bytes_ref, from_bytes_mut"), ("SIMD loads and target_feature", "process_block_simd_x86_intrinsics"), ("volatile accesses", "fixed_time_eq")], None, ["whole public API"])
p("C14", "No operation panics outside its documented panics",
  "Hashing, keyed hashing, incremental input, finalising, conversions, formatting, parsing and writing return normally for every input of every length, in builds with and without overflow and debug checks. The only panics are the documented ones: comparing slices of unequal length, resuming from a misaligned length and indexing out of range.",
  ["inputs", "histories", "configurations"], "all inputs, fill levels, earlier block counts, and both arithmetic-check modes",
  "Panics hide at specific residues, lengths and byte values that a fixed vector does not hit, and tests run with one arithmetic mode.",
  ["src"], [("index arithmetic", "engine_input_impl!, finalize, siphash24 input"), ("checked conversions", "from_slice, FromStr")], None, ["whole public API"])
p("C15", "Writing to an engine is the same as inputting the bytes",
  "Through each writer interface an engine offers, writing any byte string (single write, write-all, formatted write, empty writes, or several writes) accepts all bytes, reports exactly the number of bytes given, and leaves the engine in the same state as inputting them; a vectored write may take a leading part only, and then inputs and reports exactly that part. Flushing succeeds and changes nothing.",
  ["inputs", "histories"], "all byte strings and fill levels, all engines with a writer interface, both writer traits",
  "Each writer test makes three fixed writes of one string and checks one digest; return counts, empty and block-crossing writes and flush are not checked.",
  ["src/impls.rs"], [("writer impls", "impl_write! invocations and hmac impls")], None, ["bitcoin_io::Write", "std::io::Write"])
p("C16", "Every feature combination and no_std builds",
  "The crate compiles under every combination of its optional features, with and without the standard library (including for targets that have none) and under its fuzzing configuration, the always-available part of the interface is present in each of them, and what a feature adds is present whenever that feature is enabled.",
  ["configurations"], "all 2^7 feature subsets, hosted and bare-metal targets, fuzzing cfg",
  "CI and the baseline build six combinations, all on a hosted target.",
  ["Cargo.toml", "src/lib.rs", "src"], [("cfg gates", "cfg(feature = ...) throughout")], None, ["cargo check"])
p("C17", "Equality, ordering and hashing follow the bytes",
  "For every two values of a hash or midstate type, equality holds exactly when all bytes are equal, ordering is the lexicographic order of the bytes with all comparison forms consistent with each other, and equal values hash equally while the hash takes every byte into account. The default value, where offered, is the all-zero value, and copies equal their originals.",
  ["inputs"], "all pairs of values of all types, including tagged types whose tag implements none of these traits",
  "Tests only use equality on expected constants; ordering and hashing are never called.",
  ["src/internal_macros.rs", "src/sha256t.rs", "src/hmac.rs", "src/sha256.rs"], [("derives and manual impls", "hash_type!, sha256t::Hash, hmac::Hash, Midstate")], None, ["PartialEq", "Ord", "core::hash::Hash"])
p("C18", "The published JSON schema describes the serialised form",
  "With schema support enabled, every hash type publishes a string schema whose minimum and maximum length are both exactly the length of its hex encoding and whose pattern matches every hex encoding the type produces or accepts. Types whose schemas differ never share one definition, so a document that uses several of them describes each correctly.",
  ["inputs", "configurations"], "all hash types and sizes",
  "There is no schema test in the stable set beyond compiling.",
  ["src/internal_macros.rs", "src/hmac.rs", "src/sha256t.rs"], [("JsonSchema impls", "json_schema functions")], None, ["schemars::JsonSchema"])
p("C19", "Operations are pure: no hidden state, allocation or I/O",
  "Every hashing, keyed hashing, comparison, parsing and formatting operation depends only on its arguments and the engine it is given and changes nothing else: no state is kept between calls, nothing is allocated unless a vector is returned, and no input or output is performed. Engines and hash values can therefore be sent to and shared between threads freely, and using them concurrently cannot change a result.",
  ["schedules", "histories", "inputs"], "all interleavings and histories of calls",
  "Hidden state shows only in particular call histories or interleavings, which single-threaded vector tests do not vary.",
  ["src"], [("no statics, no interior mutability", "whole crate"), ("plain-data engines", "Engine structs")], None, ["whole public API"])
p("C20", "Collision and preimage resistance of the hash functions",
  "It is infeasible to find two different inputs with the same digest, or an input for a given digest.",
  ["inputs"], "all efficient adversaries", "A statement about adversaries, not about the code.", ["src"], [("choice of standard functions", "src")])
p("C21", "Wall-clock timing of secret-dependent operations",
  "The time the machine needs for an operation does not depend on secret contents.",
  ["inputs", "configurations"], "all inputs, CPUs and compilers", "Needs measurements on hardware; tests assert on results.", ["src/cmp.rs"], [("volatile accumulation", "fixed_time_eq")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
