From 4aa64ed829831ccdcd70d3064de0ecbdfa24db91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:09 +0000
Subject: [PATCH 1/4] fix: report a truncated signature as
 InvalidSignatureLengthError instead of panicking

---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..a3a50f4 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -56,6 +56,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
     p2 = p2.point_scalar_mul(&scalar_four);
+    if sig.len() < 57 + 57 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let mut sig1: [u8; 57] = [0; 57];
     let mut sig2: [u8; 57] = [0; 57];
 
-- 
2.43.0


From 37bead4f76f6ab4b595da020e4f2dac953f60c50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 2/4] fix: return a deserialisation error for a malformed key
 record instead of panicking

---
 src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..e4254ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,12 @@ impl Signature {
     }
 }
 
+fn key_from_hex<E: de::Error>(s: &str) -> core::result::Result<[u8; 57], E> {
+    let mut key: [u8; 57] = [0; 57];
+    hex::decode_to_slice(s, &mut key).map_err(de::Error::custom)?;
+    Ok(key)
+}
+
 impl Serialize for SigningKey {
     fn serialize<S>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error>
     where
@@ -184,7 +190,7 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            Ok(SigningKey::from_slice(&key_from_hex::<D::Error>(&s)?))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +214,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            Ok(SecretKey {
+                key: key_from_hex(&s)?,
+            })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +240,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            Ok(VerifyingKey {
+                key: key_from_hex(&s)?,
+            })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0


From 1d4af1adc98ee8fb80fdc5f5b2dfbe05e2692302 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 3/4] fix: generate keys from the OS generator so a forked
 process never repeats its parent's keys

---
 src/goldilocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goldilocks.rs b/src/goldilocks.rs
index 80a0c9b..bbcaa87 100644
--- a/src/goldilocks.rs
+++ b/src/goldilocks.rs
@@ -1,4 +1,4 @@
-use rand::RngCore;
+use rand::{rngs::OsRng, RngCore};
 
 use crate::errors::LibgoldilockErrors;
 use crate::{
@@ -180,7 +180,7 @@ pub fn ed448_verify_with_error(
 
 pub fn ed448_generate_key() -> PrivateKey {
     let mut random_key: PrivateKey = [0; 57];
-    rand::thread_rng().fill_bytes(&mut random_key);
+    OsRng.fill_bytes(&mut random_key);
     random_key
 }
 
-- 
2.43.0


From 48175769d7957151840cb1df533f173f15a40007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 4/4] fix: decode every canonical point encoding instead of
 refusing some honest public keys

The check that the y coordinate is below p compared 28-bit limbs against a
modulus in another radix and dropped the borrow, so it refused about one valid
encoding in 2^35 (and accepted values not below p).
---
 src/bignumber.rs   | 4 +---
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..be2120c 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -627,9 +627,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> RADIX;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0

