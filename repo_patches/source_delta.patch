From e95f1830f1605d0eedd41f116cc0edafdfaecd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:33 +0000
Subject: [PATCH 1/5] fix: sha512: read 8-byte words in from_midstate

The words of the SHA-512 state are 64 bits wide; splitting the midstate into
4-byte chunks made every call panic (also through sha384, sha512_256 and hmac).
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 13ddc2e7ec0069a4ab543dbf5f717bf80147c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:33 +0000
Subject: [PATCH 2/5] fix: ripemd160: read little-endian words in from_midstate

midstate() writes the words in little-endian order (as does finalize), so
from_midstate() has to read them back in that order.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 21e55b1da4f51b435775b837ca320c5e6a24d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:33 +0000
Subject: [PATCH 3/5] fix: siphash24: keep the length given to from_midstate

The length is part of the final SipHash block and of n_bytes_hashed(), so an
engine resumed from a midstate produced a wrong hash.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From a08012c9d271b124ad7ab981184b0728fae5a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 4/5] fix: hmac: outer engine has hashed only the padded key in
 from_midstate

The outer engine's midstate covers one block of padded key, whatever the amount
of data fed to the inner engine; using the inner length for both engines gave
a wrong HMAC unless no data had been input yet.
---
 src/hmac.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..ccd9756 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -266,7 +266,11 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            // The outer engine has only consumed the padded key, see `Engine::new`.
+            oengine: E::from_midstate(
+                midstate.outer,
+                E::default().n_bytes_hashed() + E::BLOCK_SIZE,
+            ),
         }
     }
 }
-- 
2.43.0


From ff6c1904f33100a30857db0f423b10f73d3af316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 5/5] fix: hmac: make Hash repr(transparent)

from_bytes_ref() and from_bytes_mut() cast references to the byte array, which
is sound only if the layouts are guaranteed to be the same.
---
 src/hmac.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index ccd9756..dff834b 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -16,6 +16,7 @@ use crate::{FromSliceError, HashEngine};
 
 /// A hash computed from a RFC 2104 HMAC. Parameterized by the size of the underlying hash function.
 #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[repr(transparent)]
 pub struct Hash<const N: usize>([u8; N]);
 
 impl<const N: usize> Hash<N> {
-- 
2.43.0

