From 890427c80c93b4b0214d6cd519b51b7c2f922dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 1/9] fix: compare the signature scalar with the group order in
 the same byte order

---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0


From 66cf031ff7a019120b3edc5a7e4fe29bfdca01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 2/9] fix: reject signatures that are not 64 bytes long instead
 of panicking

---
 src/crypto/ed25519.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index df11a96..d283b24 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -24,6 +24,9 @@ fn check_s_lt_l(s: &[u8]) -> bool {
 }
 
 pub fn verify(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
+    if signature.len() != 64 {
+        return false;
+    }
     if check_s_lt_l(&signature[32..64]) || is_identity(public_key) {
         return false;
     }
-- 
2.43.0


From db13748a92b07417e3d22bb737d2f7ece68e9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 3/9] fix: keep leading and trailing whitespace of trusted
 comments

---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..ee52cf0 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -116,7 +116,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         Ok(SignatureBox {
-- 
2.43.0


From b7c8e8a3d6d68cafcdee7f4ecb7d42c93d17a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 4/9] fix: encrypt the secret key when the password is empty

---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From 2c74db1ba4260a4316df7060c3d419451987736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 5/9] fix: carry the sum before subtracting it in point
 doubling

---
 src/crypto/curve25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 5d3e4d7..8ae3ddd 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -697,7 +697,7 @@ impl GeP2 {
         let aa = a.square();
         let y3 = yy + xx;
         let z3 = yy - xx;
-        let x3 = aa - y3;
+        let x3 = aa - y3.carry();
         let t3 = b - z3;
 
         GeP1P1 {
-- 
2.43.0


From bd3ee1b63c058ace19e15b89c8122ee656cdbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 6/9] fix: do not truncate the scrypt parallelization parameter
 for large opslimits

---
 src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..0a24041 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -64,7 +64,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
             }
             n_log2 += 1;
         }
-        let maxrp = cmp::min(0x3fff_ffff_u32, ((opslimit / 4) / (1u64 << n_log2)) as u32);
+        let maxrp = cmp::min(0x3fff_ffff_u64, (opslimit / 4) / (1u64 << n_log2)) as u32;
         p = maxrp / r;
     }
     if n_log2 > n_log2_max {
-- 
2.43.0


From 8b626dd92c834683f4eaa71468edf112c1b7b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 7/9] fix: refuse scrypt parameters that need more than the
 maximum memory

---
 src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 0a24041..a90c557 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -67,7 +67,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
         let maxrp = cmp::min(0x3fff_ffff_u64, (opslimit / 4) / (1u64 << n_log2)) as u32;
         p = maxrp / r;
     }
-    if n_log2 > n_log2_max {
+    if n_log2 > n_log2_max || u64::from(p) * u64::from(r) * 128 > MEMLIMIT_MAX as u64 {
         return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
     }
     scrypt::Params::new(n_log2, r, p, scrypt::Params::RECOMMENDED_LEN).map_err(Into::into)
-- 
2.43.0


From 64602771c6ed83354c515c1858c2b60188dc1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 8/9] fix: refuse the non-canonical encoding of the identity as
 a public key

---
 src/crypto/curve25519.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 8ae3ddd..3fd56b5 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -1842,7 +1842,13 @@ pub fn is_identity(s: &[u8]) -> bool {
         c |= s[i];
     }
     c |= s[31] & 0x7f;
-    c == 0
+    // y = 1 can also be encoded as p + 1
+    let mut d = s[0] ^ 0xee;
+    for i in 1..31 {
+        d |= s[i] ^ 0xff;
+    }
+    d |= (s[31] & 0x7f) ^ 0x7f;
+    c == 0 || d == 0
 }
 
 static BI: [GePrecomp; 8] = [
-- 
2.43.0


From d839714d0ed764edd49fff3719213120f9bcba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 9/9] verification hook: expose private items under
 cfg(minisign_vp)

---
 src/crypto/mod.rs |  6 ++++++
 src/lib.rs        | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index 2a82f08..4286f6e 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -15,3 +15,9 @@ mod sha512;
 pub mod blake2b;
 pub mod ed25519;
 pub mod util;
+
+#[cfg(minisign_vp)]
+pub mod vp {
+    pub use super::curve25519::*;
+    pub use super::sha512::Hash as Sha512;
+}
diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..a99ffda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![allow(
+    unexpected_cfgs,
     clippy::inherent_to_string,
     clippy::wrong_self_convention,
     clippy::derivable_impls,
@@ -212,3 +213,22 @@ where
     }
     Ok(())
 }
+
+/// Access to private items for verification builds (`--cfg minisign_vp`).
+#[cfg(minisign_vp)]
+#[doc(hidden)]
+pub mod vp {
+    pub use crate::crypto::blake2b::Blake2b;
+    pub use crate::crypto::ed25519;
+    pub use crate::crypto::vp::*;
+    pub use crate::helpers::raw_scrypt_params;
+
+    pub fn set_box_parts(
+        b: &mut crate::SignatureBox,
+        sig_and_trusted_comment: Option<Vec<u8>>,
+        global_sig: Option<Vec<u8>>,
+    ) {
+        b.sig_and_trusted_comment = sig_and_trusted_comment;
+        b.global_sig = global_sig;
+    }
+}
-- 
2.43.0

