From 0ade707a5372bcbe470bb756472e046745b1eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 01/11] verif: cfg-guarded hook exposing crate internals to the
 verification harness

---
 iris-mpc/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 752fb46..125fa83 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // cfg(verif)
 pub(crate) mod aby3;
 pub(crate) mod aby3_mal;
 pub(crate) mod commitment;
@@ -11,3 +12,7 @@ pub(crate) mod swift3;
 pub(crate) mod tests;
 pub(crate) mod traits;
 pub(crate) mod types;
+
+// Verification harness: exposes crate internals, only with `--cfg verif`.
+#[cfg(verif)]
+include!(env!("VERIF_HOOK"));
-- 
2.43.0


From ef9b6c981fd34f4a1881d73cc0c50b8865cd5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 02/11] fix: swift3 input returns IdError for an invalid dealer
 id instead of panicking

---
 iris-mpc/src/swift3/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..6642a21 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -1938,6 +1938,9 @@ where
     }
 
     async fn input(&mut self, input: Option<T>, id: usize) -> Result<Share<T>, Error> {
+        if id >= self.network.get_num_parties() {
+            return Err(Error::IdError(id));
+        }
         let self_id = self.get_id();
         if id == self_id && input.is_none() {
             return Err(Error::ValueError("Cannot share None".to_string()));
-- 
2.43.0


From afb4ce537035d8144c4ab4c7aca9bbcf03237fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 03/11] fix: swift3 dot_many rejects vectors of unequal lengths
 instead of truncating

---
 iris-mpc/src/swift3/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 6642a21..64007d9 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2255,6 +2255,9 @@ where
         let mut shares_e = Vec::with_capacity(len);
 
         for (a_, b_) in a.iter().cloned().zip(b.iter().cloned()) {
+            if a_.len() != b_.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut d = Vec::with_capacity(len);
             let mut e = Vec::with_capacity(len);
 
-- 
2.43.0


From 3c13020b5f6d3e24b7425b573d1c80c2b2a6e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 04/11] fix: spdzwise masked_dot_many rejects codes of unequal
 lengths instead of truncating

---
 iris-mpc/src/spdzwise/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..7066729 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1159,6 +1159,9 @@ where
         let mut mac_shares_a = Vec::with_capacity(len);
 
         for (b, mask) in b.iter().zip(masks.iter()) {
+            if a.len() != b.len() {
+                return Err(Error::InvalidSizeError);
+            }
             let mut rand = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
             let mut rand2 = self.aby3.prf.gen_zero_share::<T::VerificationShare>();
 
-- 
2.43.0


From 9bef86542e95e1f6d3f4f9ade99d007a9adff67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 05/11] fix: masked_dot_many rejects lists of codes and masks
 of unequal lengths instead of truncating

---
 iris-mpc/src/aby3/protocol.rs     | 2 +-
 iris-mpc/src/spdzwise/protocol.rs | 2 +-
 iris-mpc/src/traits/mpc_trait.rs  | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..a0ac50e 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,7 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 7066729..5ea7aec 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1151,7 +1151,7 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..fc90517 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,9 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0


From 9712d7b2fbfded69106a7c288429081f9477ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 06/11] fix: reject invalid bit encodings when receiving an
 iterator of ring elements

ring_iter_from_bytes only checked the length, so a byte other than 0 or 1 in a
message of bits made the receiver panic while iterating instead of returning
ConversionError.
---
 iris-mpc/src/aby3/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..278e0ed 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -244,6 +244,10 @@ where
     if bytes.remaining() != n * ((T::K + 7) / 8) {
         return Err(Error::ConversionError);
     }
+    if T::K % 8 != 0 {
+        // Not every byte is a valid encoding, so the length alone is not enough
+        ring_vec_from_bytes::<T>(bytes.clone(), n)?;
+    }
 
     Ok(RingBytesIter {
         bytes,
-- 
2.43.0


From cc1047471f9ea738d32fa393fe8571130503f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 07/11] fix: the constant polynomial 1 (degree 0) is recognised
 as one

---
 iris-mpc/src/dzkp/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 21fde28..d8c48b8 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -597,7 +597,7 @@ impl<T: PolyTrait> One for Poly<T> {
     }
 
     fn is_one(&self) -> bool {
-        self.degree() == 1 && self.leading_coeff().is_one()
+        self.degree() == 0 && self.coeffs.first().is_some_and(|c| c.is_one())
     }
 }
 
-- 
2.43.0


From 45891f51f65edef7db196693f344bdbe84cab776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:25 +0000
Subject: [PATCH 08/11] verif: cfg-guarded access to coins, JMP verification
 and triples

---
 iris-mpc/src/aby3_mal/protocol.rs | 12 +++++++++++
 iris-mpc/src/spdzwise/protocol.rs | 35 +++++++++++++++++++++++++++++--
 iris-mpc/src/swift3/protocol.rs   | 18 ++++++++++++++++
 3 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..170e157 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1355,3 +1355,15 @@ fn clear_and_hash(data: &mut BytesMut) -> Output<Sha512> {
     hasher.update(bytes);
     hasher.finalize()
 }
+
+// Verification harness access, only with `--cfg verif`.
+#[cfg(verif)]
+impl<N: NetworkTrait> MalAby3<N> {
+    pub async fn verif_coin(&mut self) -> Result<[u8; 32], Error> {
+        self.coin::<ChaCha12Rng>().await
+    }
+
+    pub async fn verif_jmp_verify(&mut self) -> Result<(), Error> {
+        self.jmp_verify().await
+    }
+}
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 5ea7aec..a2654eb 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -24,6 +24,12 @@ pub(crate) type VecTShare<T: Sharable> = VecShare<T::VerificationShare>;
 #[allow(type_alias_bounds)]
 pub(crate) type UShare<T: Sharable> = <T::VerificationShare as Sharable>::Share;
 
+/// Number of 128-bit registers of AND triples handled at least at a time.
+#[cfg(not(verif))]
+const MIN_REGISTERS: usize = 1usize << (20 - 7);
+#[cfg(verif)] // small enough for the verification harness
+const MIN_REGISTERS: usize = 1;
+
 pub struct SpdzWise<N: NetworkTrait, U: Sharable> {
     aby3: Aby3<N>,
     mac_key: Aby3Share<U>,
@@ -330,7 +336,7 @@ where
     {
         // https://www.ieee-security.org/TC/SP2017/papers/96.pdf
         // Assumes B=2 buckets (Secure when generating 2^20 triples)
-        const N: usize = 1usize << (20 - 7); // # of 128 bit registers, corresponds to 2^20 AND GATES
+        const N: usize = MIN_REGISTERS; // # of 128 bit registers, corresponds to 2^20 AND GATES
                                              // Here we have C=128 which is significantly more than required for security
         let n = std::cmp::max(num, N);
         let a = (0..2 * n + 1)
@@ -490,7 +496,7 @@ where
             return Ok(());
         }
         let (a, b, c) = self.triple_buffer.get_all();
-        let len_ = std::cmp::max(len, 1usize << (20 - 7)); // Permute at least 2^(20) triples, as required for security
+        let len_ = std::cmp::max(len, MIN_REGISTERS); // Permute at least 2^(20) triples, as required for security
         let (mut x, mut y, mut z) = self.prec_triples.get(len_)?;
 
         // Permute the precomputed triples again
@@ -1323,3 +1329,28 @@ where
         self.binary_add_3_many(x1, x2, x3).await
     }
 }
+
+// Verification harness access, only with `--cfg verif`.
+#[cfg(verif)]
+impl<N: NetworkTrait, U: Sharable> SpdzWise<N, U>
+where
+    Standard: Distribution<U::Share>,
+    Aby3Share<U>: Mul<U::Share, Output = Aby3Share<U>>,
+{
+    pub async fn verif_coin(&mut self) -> Result<[u8; 32], Error> {
+        self.coin::<ChaCha12Rng>().await
+    }
+
+    pub async fn verif_jmp_verify(&mut self) -> Result<(), Error> {
+        self.jmp_verify().await
+    }
+
+    /// the precomputed triples and the AND gates to be verified
+    pub fn verif_triples(&mut self) -> (&mut Triples, &mut Triples) {
+        (&mut self.prec_triples, &mut self.triple_buffer)
+    }
+
+    pub async fn verif_verify_triple_queue(&mut self) -> Result<(), Error> {
+        self.verify_triple_queue::<ChaCha12Rng>().await
+    }
+}
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 64007d9..9ab6a76 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2374,3 +2374,21 @@ where
         self.binary_add_3_many(x1, x2, x3).await
     }
 }
+
+// Verification harness access, only with `--cfg verif`.
+#[cfg(verif)]
+impl<N: NetworkTrait, U: Sharable> Swift3<N, U>
+where
+    Standard: Distribution<U::Share>,
+{
+    pub async fn verif_coin<R: Rng>(&mut self, rng: &mut R) -> Result<[u8; 32], Error>
+    where
+        R: SeedableRng<Seed = [u8; 32]>,
+    {
+        self.coin::<R>(rng).await
+    }
+
+    pub async fn verif_jmp_verify(&mut self) -> Result<(), Error> {
+        self.jmp_verify().await
+    }
+}
-- 
2.43.0


From 48dff2baa2b7f4ead769682993e99930428ad1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 09/11] verif: cfg-guarded access to the generators

---
 iris-mpc/src/aby3_mal/protocol.rs | 4 ++++
 iris-mpc/src/spdzwise/protocol.rs | 4 ++++
 iris-mpc/src/swift3/protocol.rs   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index 170e157..aed650d 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1366,4 +1366,8 @@ impl<N: NetworkTrait> MalAby3<N> {
     pub async fn verif_jmp_verify(&mut self) -> Result<(), Error> {
         self.jmp_verify().await
     }
+
+    pub(crate) fn verif_prf(&mut self) -> &mut Prf {
+        &mut self.prf
+    }
 }
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index a2654eb..1781276 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1353,4 +1353,8 @@ where
     pub async fn verif_verify_triple_queue(&mut self) -> Result<(), Error> {
         self.verify_triple_queue::<ChaCha12Rng>().await
     }
+
+    pub(crate) fn verif_aby3(&mut self) -> &mut Aby3<N> {
+        &mut self.aby3
+    }
 }
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 9ab6a76..8527a94 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2391,4 +2391,8 @@ where
     pub async fn verif_jmp_verify(&mut self) -> Result<(), Error> {
         self.jmp_verify().await
     }
+
+    pub(crate) fn verif_prf(&mut self) -> &mut Prf {
+        &mut self.prf
+    }
 }
-- 
2.43.0


From d4814b9832dae889a4a686ce1ad5b7637065aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 10/11] fix: MAC-based protocol opens values with agreement of
 both senders

After the MAC check the value was reconstructed with the semi-honest
opening, so one party could make an honest party output any value by
altering the share it sends. Compare the two senders' copies, as done for
the opening of bits.
---
 iris-mpc/src/spdzwise/protocol.rs | 40 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 1781276..88f766d 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -514,6 +514,31 @@ where
         Ok(())
     }
 
+    /// Opens additive shares; the two senders of each missing share have to agree.
+    async fn jmp_open_many(&mut self, shares: Vec<Aby3Share<U>>) -> Result<Vec<U>, Error> {
+        let len = shares.len();
+        let mut shares_a = Vec::with_capacity(len);
+        let mut shares_b = Vec::with_capacity(len);
+
+        for share in shares.iter().cloned() {
+            let (a, b) = share.get_ab();
+            shares_a.push(a);
+            shares_b.push(b);
+        }
+
+        let shares_c = self
+            .jmp_send_receive_many::<U>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
+
+        let res = shares
+            .iter()
+            .zip(shares_c)
+            .map(|(s, c)| U::from_sharetype(c + &s.a + &s.b))
+            .collect();
+        Ok(res)
+    }
+
     async fn aby3_and<T: Sharable>(
         &mut self,
         a: Aby3Share<T>,
@@ -876,13 +901,7 @@ where
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
-
+        let result = self.jmp_open_many(vec![share.get_value()]).await?[0].to_owned();
         Ok(T::from_verificationshare(result))
     }
 
@@ -890,12 +909,7 @@ where
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let result = self.jmp_open_many(shares.get_values()).await?;
 
         let result = result
             .into_iter()
-- 
2.43.0


From fdba40ba9ba168350525efe5696f0043d945294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:12 +0000
Subject: [PATCH 11/11] fix: four-value protocol rejects proof messages with
 trailing bytes

---
 iris-mpc/src/aby3/utils.rs      | 11 +++++++++++
 iris-mpc/src/swift3/protocol.rs | 18 ++++++------------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 278e0ed..57fb51c 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -12,8 +12,10 @@ use crate::{
         ring_element::{RingElement, RingImpl},
     },
 };
+use bincode::Options;
 use bytes::{Buf, Bytes, BytesMut};
 use num_traits::{AsPrimitive, One, Zero};
+use serde::de::DeserializeOwned;
 use std::{
     io::Error as IOError,
     ops::{BitXor, BitXorAssign},
@@ -31,6 +33,15 @@ pub(crate) fn bytes_to_seed(mut bytes: BytesMut) -> Result<PrfSeed, Error> {
     }
 }
 
+/// Inverse of `bincode::serialize` which rejects messages with trailing bytes.
+pub(crate) fn deserialize_exact<T: DeserializeOwned>(bytes: &[u8]) -> Result<T, Error> {
+    bincode::DefaultOptions::new()
+        .with_fixint_encoding()
+        .reject_trailing_bytes()
+        .deserialize(bytes)
+        .map_err(|_| Error::SerializationError)
+}
+
 pub(crate) fn ceil_log2(x: usize) -> usize {
     let mut y = 0;
     let mut x = x - 1;
diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 8527a94..bd6a8ed 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -694,8 +694,7 @@ where
             ))
             .await?;
         let bytes = self.network.receive_prev_id().await?;
-        let shared_verify_rcv =
-            bincode::deserialize(&bytes).map_err(|_| Error::SerializationError)?;
+        let shared_verify_rcv = utils::deserialize_exact(&bytes)?;
 
         // finally, combine the shared verifications to verify the proof of next_id
         self.and_proof.combine_verifications(
@@ -776,8 +775,7 @@ where
             ))
             .await?;
         let bytes = self.network.receive_prev_id().await?;
-        let shared_verify_rcv =
-            bincode::deserialize(&bytes).map_err(|_| Error::SerializationError)?;
+        let shared_verify_rcv = utils::deserialize_exact(&bytes)?;
 
         // finally, combine the shared verifications to verify the proof of next_id
         self.mul_proof.combine_verifications(
@@ -859,8 +857,7 @@ where
             ))
             .await?;
         let bytes = self.network.receive_prev_id().await?;
-        let shared_verify_rcv =
-            bincode::deserialize(&bytes).map_err(|_| Error::SerializationError)?;
+        let shared_verify_rcv = utils::deserialize_exact(&bytes)?;
 
         // finally, combine the shared verifications to verify the proof of next_id
         self.dot_proof.combine_verifications(
@@ -1748,8 +1745,7 @@ where
             .await?;
 
         let proof_bytes = self.network.receive_prev_id().await?;
-        let proof_prev =
-            bincode::deserialize(&proof_bytes).map_err(|_| Error::SerializationError)?;
+        let proof_prev = utils::deserialize_exact(&proof_bytes)?;
 
         let seed_next = self.network.receive_next_id().await?.freeze();
         if seed_next.len() != seed.as_ref().len() {
@@ -1787,8 +1783,7 @@ where
             .await?;
 
         let proof_bytes = self.network.receive_prev_id().await?;
-        let proof_prev =
-            bincode::deserialize(&proof_bytes).map_err(|_| Error::SerializationError)?;
+        let proof_prev = utils::deserialize_exact(&proof_bytes)?;
 
         let seed_next = self.network.receive_next_id().await?.freeze();
         if seed_next.len() != seed.as_ref().len() {
@@ -1842,8 +1837,7 @@ where
             .await?;
 
         let proof_bytes = self.network.receive_prev_id().await?;
-        let proof_prev =
-            bincode::deserialize(&proof_bytes).map_err(|_| Error::SerializationError)?;
+        let proof_prev = utils::deserialize_exact(&proof_bytes)?;
 
         let seed_next = self.network.receive_next_id().await?.freeze();
         if seed_next.len() != seed.as_ref().len() {
-- 
2.43.0

