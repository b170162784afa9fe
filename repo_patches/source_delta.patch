From c461ff6fb2724965936ede916e96e6a19378f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:43 +0000
Subject: [PATCH 1/8] fix: resume SHA-512 engines from a midstate without
 panicking

The midstate is made of 64-bit words, reading it in 4 byte chunks always
panicked (also for SHA-384, SHA-512/256 and HMAC over any of them).
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From aa4720dfb84515da1f2cb2542c0317cb9778961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:43 +0000
Subject: [PATCH 2/8] fix: read the RIPEMD-160 midstate in the byte order it is
 written in

`midstate` writes little endian words but `from_midstate` read big endian
ones so a resumed engine computed wrong digests.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 66ffd96f69897470cf91bc7f21d97e7d39fa37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:43 +0000
Subject: [PATCH 3/8] fix: keep the byte count when resuming a SipHash engine

The length passed to `from_midstate` was ignored, hence `n_bytes_hashed`
and the length byte mixed into the digest were wrong.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..3473396 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { length, state: midstate, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 956a663663b975adcce62981c09515367667b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:43 +0000
Subject: [PATCH 4/8] fix: resume the outer HMAC engine at one block

The outer engine only ever absorbed the padded key, giving it the byte
count of the inner engine made the digests of resumed engines wrong.
---
 src/hmac.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..4a1b239 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -266,7 +266,8 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            // The outer engine has absorbed exactly the one key block.
+            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
         }
     }
 }
-- 
2.43.0


From b5c13d17c9e6924bbbf799dc487dc83dc66ae4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 5/8] fix: build with "alloc" but without "std"

`Vec` is not in the prelude of a no-std crate.
---
 src/hmac.rs            | 2 +-
 src/internal_macros.rs | 2 +-
 src/lib.rs             | 2 +-
 src/sha256t.rs         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 4a1b239..a631b99 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -77,7 +77,7 @@ impl<const N: usize> Hash<N> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..dacf92b 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -213,7 +213,7 @@ macro_rules! hash_type {
             /// Copies the underlying bytes into a new `Vec`.
             #[cfg(feature = "alloc")]
             #[inline]
-            pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+            pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
             /// Returns an all zero hash.
             ///
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..b631757 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
+#[cfg(feature = "alloc")]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..b84c2c5 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -118,7 +118,7 @@ impl<T: Tag> Hash<T> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
-- 
2.43.0


From d454b404068ac1a4c81a13f3ac9dc1763b62bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 6/8] fix: build with "schemars" but without "std"

`String`, `Box` and `ToOwned` are not in the prelude of a no-std crate
(and `std` is not there at all), schemars always needs an allocator.
---
 src/hmac.rs            | 8 ++++----
 src/internal_macros.rs | 8 ++++----
 src/lib.rs             | 2 +-
 src/sha256t.rs         | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index a631b99..9b9d194 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -89,14 +89,14 @@ impl<const N: usize> Hash<N> {
 
 #[cfg(feature = "schemars")]
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
-    fn schema_name() -> std::string::String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(N as u32 * 2), // FIXME: Remove cast.
             min_length: Some(N as u32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index dacf92b..ce4d5f7 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -225,15 +225,15 @@ macro_rules! hash_type {
 
         #[cfg(feature = "schemars")]
         impl schemars::JsonSchema for Hash {
-            fn schema_name() -> String { "Hash".to_owned() }
+            fn schema_name() -> alloc::string::String { "Hash".into() }
 
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
-                let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-                schema.string = Some(Box::new(schemars::schema::StringValidation {
+                let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
+                schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
                     max_length: Some(len * 2),
                     min_length: Some(len * 2),
-                    pattern: Some("[0-9a-fA-F]+".to_owned()),
+                    pattern: Some("[0-9a-fA-F]+".into()),
                 }));
                 schema.into()
             }
diff --git a/src/lib.rs b/src/lib.rs
index b631757..148e418 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(feature = "alloc")]
+#[cfg(any(feature = "alloc", feature = "schemars"))]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index b84c2c5..53d8739 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -130,14 +130,14 @@ impl<T: Tag> Hash<T> {
 
 #[cfg(feature = "schemars")]
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
-    fn schema_name() -> String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(32 * 2),
             min_length: Some(32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
-- 
2.43.0


From 88674d2119de7835f7cba4dfd2eaf4fb2a2925c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:10 +0000
Subject: [PATCH 7/8] fix: keep hash schemas of different lengths apart

All hash types call their JSON schema "Hash", so a schema that contains
several of them used the first one for all.
---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index 9b9d194..7c92f15 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -91,6 +91,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by hash types of different lengths, so never refer to the schema by name.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
         schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index ce4d5f7..7982ed8 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> alloc::string::String { "Hash".into() }
 
+            // The name is shared by hash types of different lengths, so never refer to the schema by name.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 53d8739..ba1a97b 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by hash types of different lengths, so never refer to the schema by name.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject = <alloc::string::String>::json_schema(gen).into();
         schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
-- 
2.43.0


From 319076fefd40c2b682add77c97f2ea8ae8a05d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 8/8] fix: count the bytes a new engine starts with when
 resuming the outer HMAC engine

An engine over tagged SHA-256 (or over HMAC) has already absorbed a block when it is created.
---
 src/hmac.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 7c92f15..53eb0c3 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -269,8 +269,9 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            // The outer engine has absorbed exactly the one key block.
-            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
+            // The outer engine has absorbed exactly the one key block (on top of what a new engine
+            // may already have absorbed e.g., the tag of a tagged hash).
+            oengine: E::from_midstate(midstate.outer, E::new().n_bytes_hashed() + E::BLOCK_SIZE),
         }
     }
 }
-- 
2.43.0

