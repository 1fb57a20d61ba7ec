From 35321b8f05fbda18e57c8ec365de2b9ebb2a5cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 1/8] fix: sha512: read 8 byte words in Engine::from_midstate

The midstate was split into 4 byte chunks which can never be converted to
`[u8; 8]`, so resuming a SHA-512, SHA-384 or SHA-512/256 engine from a
midstate always panicked.
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 4090a98c1a4e008a3fb061e49a12e06a93b97859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 2/8] fix: ripemd160: decode midstate as little endian

`midstate` writes the state words as little endian but `from_midstate` read
them as big endian, so a resumed engine gave a wrong digest.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 072695c8e7b91c9aa75fa6d015f85b6a7d7cb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 3/8] fix: hmac: resume the outer engine with its own length

`from_midstate` used the inner engine's length for the outer engine, which
has only ever seen the padded key, so resuming after any data gave a wrong
MAC.
---
 src/hmac.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..32c3c6e 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -264,9 +264,11 @@ impl<E: HashEngine> HashEngine for Engine<E> {
 
     #[inline]
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
+        // Only the padded key has been input into the outer engine.
+        let outer_length = E::new().n_bytes_hashed() + E::BLOCK_SIZE;
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            oengine: E::from_midstate(midstate.outer, outer_length),
         }
     }
 }
-- 
2.43.0


From bd8cf6be9cbfe6e59660eed343a34aba2d7cb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 4/8] fix: siphash24: do not drop the length in
 Engine::from_midstate

The length is part of the final block, ignoring it gave a wrong hash for
every engine resumed after data had been input.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 0718c8ada0274adec4b12594490eee70df2961d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 5/8] fix: hmac: make Hash repr(transparent)

`from_bytes_ref` and `from_bytes_mut` cast references to the byte array and
their safety comments rely on this attribute.
---
 src/hmac.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index 32c3c6e..71c968c 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -16,6 +16,7 @@ use crate::{FromSliceError, HashEngine};
 
 /// A hash computed from a RFC 2104 HMAC. Parameterized by the size of the underlying hash function.
 #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[repr(transparent)]
 pub struct Hash<const N: usize>([u8; N]);
 
 impl<const N: usize> Hash<N> {
-- 
2.43.0


From 32290af690aafd1d7264922c69acfb550f015b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 6/8] fix: sha256: repair the hashes_fuzz build of finalize

`e` is not defined there, so the crate did not compile with
`--cfg hashes_fuzz`.
---
 src/sha256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index b089486..c5f1989 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -74,7 +74,7 @@ impl HashEngine for Engine {
 
     #[cfg(hashes_fuzz)]
     fn finalize(mut self) -> Self::Digest {
-        let mut hash = e.midstate().to_byte_array();
+        let mut hash = self.midstate().to_byte_array();
         if hash == [0; 32] {
             // Assume sha256 is secure and never generate 0-hashes (which represent invalid
             // secp256k1 secret keys, causing downstream application breakage).
-- 
2.43.0


From 4dd8787c013d6892e695646fdfa842b338867e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 7/8] fix: build with alloc or schemars but without std

The prelude has no `Vec`, `String`, `Box` or `ToOwned` in a no_std crate, so
`--no-default-features --features alloc` and `... --features schemars` did
not compile.
---
 src/hmac.rs            | 11 ++++++-----
 src/internal_macros.rs | 11 ++++++-----
 src/lib.rs             |  2 +-
 src/sha256t.rs         | 11 ++++++-----
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 71c968c..de930ea 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -78,7 +78,7 @@ impl<const N: usize> Hash<N> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -90,14 +90,15 @@ impl<const N: usize> Hash<N> {
 
 #[cfg(feature = "schemars")]
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
-    fn schema_name() -> std::string::String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(N as u32 * 2), // FIXME: Remove cast.
             min_length: Some(N as u32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..46e7afd 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -213,7 +213,7 @@ macro_rules! hash_type {
             /// Copies the underlying bytes into a new `Vec`.
             #[cfg(feature = "alloc")]
             #[inline]
-            pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+            pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
             /// Returns an all zero hash.
             ///
@@ -225,15 +225,16 @@ macro_rules! hash_type {
 
         #[cfg(feature = "schemars")]
         impl schemars::JsonSchema for Hash {
-            fn schema_name() -> String { "Hash".to_owned() }
+            fn schema_name() -> alloc::string::String { "Hash".into() }
 
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
-                let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-                schema.string = Some(Box::new(schemars::schema::StringValidation {
+                let mut schema: schemars::schema::SchemaObject =
+                    <alloc::string::String>::json_schema(gen).into();
+                schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
                     max_length: Some(len * 2),
                     min_length: Some(len * 2),
-                    pattern: Some("[0-9a-fA-F]+".to_owned()),
+                    pattern: Some("[0-9a-fA-F]+".into()),
                 }));
                 schema.into()
             }
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..148e418 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
+#[cfg(any(feature = "alloc", feature = "schemars"))]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..3247bc5 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -118,7 +118,7 @@ impl<T: Tag> Hash<T> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -130,14 +130,15 @@ impl<T: Tag> Hash<T> {
 
 #[cfg(feature = "schemars")]
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
-    fn schema_name() -> String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(32 * 2),
             min_length: Some(32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
-- 
2.43.0


From 9155e44a9c72aab22d6767f8947f8e57017eccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:21 +0000
Subject: [PATCH 8/8] fix: schemars: do not share one definition between hash
 types

---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index de930ea..6389e67 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -92,6 +92,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // All hash types share a name so they must not share a definition.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index 46e7afd..69f3a6a 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> alloc::string::String { "Hash".into() }
 
+            // All hash types share a name so they must not share a definition.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject =
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 3247bc5..1f46df8 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // All hash types share a name so they must not share a definition.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
-- 
2.43.0

