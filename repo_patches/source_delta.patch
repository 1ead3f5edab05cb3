From 2213051a4deeda7be9db2a22ce8532b01d876b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:36 +0000
Subject: [PATCH 01/12] fix: dividing a constant signal by a variable signal
 returned the reciprocal

---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From d4871bdb191253f88213ad3f5ae4587e721bfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:36 +0000
Subject: [PATCH 02/12] fix: SizedVec deserialization accepted sequences of the
 wrong length

---
 src/core/sizedvec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..78cd6aa 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,11 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() != L::USIZE {
+            return Err(Error::invalid_length(v.len(), &"Wrong length of SizedVec"));
+        }
+        Ok(SizedVec::<T, L>(v, PhantomData))
     }
 }
 
-- 
2.43.0


From 18c63afa0f6e341e186ee27788ecb3b0c23bdd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:36 +0000
Subject: [PATCH 03/12] fix: bn256 G2 points outside of the prime order
 subgroup were accepted

---
 src/helpers/groth16/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
-- 
2.43.0


From a1d52b0600325f65b301fa4f35102bbd28a4654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:36 +0000
Subject: [PATCH 04/12] fix: allocated boolean signals were not constrained to
 be bits

---
 src/circuit/bitify.rs | 1 -
 src/circuit/bool.rs   | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..9c8a59f 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -37,7 +37,6 @@ pub fn c_into_bits_le<'a, CS: ConstraintSystem>(
             for i in 1..limit {
                 k = k.double();
                 let s = signal.derive_alloc::<CBool<'a, CS>>(value_bits[i].as_ref());
-                s.assert();
                 remained_signal -= &s.0 * k;
                 bits[i] = s;
             }
diff --git a/src/circuit/bool.rs b/src/circuit/bool.rs
index 2e9be42..2e03576 100644
--- a/src/circuit/bool.rs
+++ b/src/circuit/bool.rs
@@ -33,7 +33,9 @@ impl<'a, CS: ConstraintSystem> Signal<'a, CS> for CBool<'a, CS> {
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-        CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()))
+        let res = CBool(CNum::alloc(cs, value.map(|v| Num::from(*v)).as_ref()));
+        res.assert();
+        res
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
-- 
2.43.0


From bed80bdd315d42f79aafb1d9b735b76962c4460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:36 +0000
Subject: [PATCH 05/12] fix: Num::from(i32::MIN) and Num::from(i64::MIN)
 overflowed

---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..b2544ce 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = (n as i128).abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = (n as i128).abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From 8796cbdccea59f98600b51782150d68a1e7e84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 06/12] fix: generated solidity verifier could be written only
 partially

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 48fde1d..3bf96c1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -374,7 +374,7 @@ macro_rules! groth16_ethereum_bindings {
                 let sol_str = generate_sol_data(&vk);
                 File::create(o.solidity)
                     .unwrap()
-                    .write(&sol_str.into_bytes())
+                    .write_all(&sol_str.into_bytes())
                     .unwrap();
                 println!("solidity verifier generated")
             }
-- 
2.43.0


From 60bc1e429bf255f8b71f36a05ee6204ecb9d10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 07/12] fix: bit decomposition wider than the field panicked
 only without a witness

---
 src/circuit/bitify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 9c8a59f..8e0af04 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -31,7 +31,7 @@ pub fn c_into_bits_le<'a, CS: ConstraintSystem>(
             let mut bits = vec![signal.derive_const(&false); limit];
             let value_bits = match value {
                 Some(v) => v.iterbit_le().map(|x| Some(x)).collect::<Vec<_>>(),
-                None => vec![None; CS::F::NUM_BITS as usize],
+                None => vec![None; limit],
             };
 
             for i in 1..limit {
-- 
2.43.0


From 1d9f088bfd788abd37ea5f725f24c2025621f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 08/12] fix: comparison with a constant ignored its bits above
 the signal width

---
 src/circuit/bitify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 8e0af04..7658705 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -63,6 +63,11 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
         vec![]
     };
 
+    // ct does not fit into the width of the signal, so it is always greater
+    if ct.iterbit_le().skip(nsteps << 1).any(|b| b) {
+        return CBool::c_false(cs);
+    }
+
     let mut sig_bits = signal.iter().chain(sig_zero.iter());
     let mut ct_bits = ct.iterbit_le();
 
-- 
2.43.0


From be4c0cf7e32b28874a8901c49afe8457cffd2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 09/12] fix: a verifying key with a truncated last point or a
 failing reader was accepted

---
 src/helpers/groth16/verifier.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..0b66880 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -161,7 +161,12 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
 
         let mut ic = vec![];
 
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        let mut tail = vec![];
+        reader.read_to_end(&mut tail)?;
+        let mut tail = tail.as_slice();
+
+        while !tail.is_empty() {
+            tail.read_exact(g1_repr.as_mut())?;
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-- 
2.43.0


From f2704b8a4d29c7ed56e054b21d91475cd238b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 10/12] fix: square roots in the bn256 scalar field Fs panicked
 or never ended

The declared multiplicative generator 7 is a square modulo the order of Fs, so the
Tonelli-Shanks constants derived from it were wrong. 31 is the smallest generator.
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From 62ce7a6d024598350da1f70f700504d9e9e07710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 11/12] fix: Groth16CS::alloc counted auxiliary variables as
 public inputs

---
 src/helpers/groth16/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index a82290c..a16e6c4 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -304,7 +304,7 @@ impl<BE: bellman::pairing::Engine, BCS: bellman::ConstraintSystem<BE>> Constrain
     type F = BE::Fr;
 
     fn alloc(&self, value: Option<Num<Self::F>>) -> Index {
-        let mut naux_ref = self.ninputs.borrow_mut();
+        let mut naux_ref = self.naux.borrow_mut();
         let naux = *naux_ref;
         *naux_ref += 1;
         self.bcs
-- 
2.43.0


From c31edc14e445d662a150b83139e6fa60e3f54f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 12/12] fix: TestCS::alloc recorded auxiliary variables as
 public inputs

---
 src/core/cs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cs.rs b/src/core/cs.rs
index f5c70ad..1159059 100644
--- a/src/core/cs.rs
+++ b/src/core/cs.rs
@@ -56,10 +56,10 @@ impl<F: Field> ConstraintSystem for TestCS<F> {
     type F = F;
 
     fn alloc(&self, v: Option<Num<Self::F>>) -> Index {
-        let mut naux_ref = self.ninputs.borrow_mut();
+        let mut naux_ref = self.naux.borrow_mut();
         let naux = *naux_ref;
         *naux_ref += 1;
-        let index = Index::Input(naux);
+        let index = Index::Aux(naux);
         if v.is_some() {
             (*self.variables.borrow_mut()).insert(index, v.unwrap());
         }
-- 
2.43.0

