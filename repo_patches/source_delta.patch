From 10b976cb00877dacb64fea4cbdf2a5c493435ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:05 +0000
Subject: [PATCH 1/7] fix: divide in the right direction when the dividend
 signal is constant

---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From 1d8060289e498376188031c2b3df54f1b98214e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 2/7] fix: compare all bits of the constant in c_comp_constant

---
 src/circuit/bitify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit/bitify.rs b/src/circuit/bitify.rs
index 379314c..f475058 100644
--- a/src/circuit/bitify.rs
+++ b/src/circuit/bitify.rs
@@ -64,6 +64,11 @@ pub fn c_comp_constant<'a, CS: ConstraintSystem>(
         vec![]
     };
 
+    // a constant that does not fit into the compared width exceeds every signal value
+    if ct.iterbit_le().skip(2 * nsteps).any(|b| b) {
+        return CBool::c_false(cs);
+    }
+
     let mut sig_bits = signal.iter().chain(sig_zero.iter());
     let mut ct_bits = ct.iterbit_le();
 
-- 
2.43.0


From c72a63aeefb76998024d27c25d6c5e0ade5ffe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:37 +0000
Subject: [PATCH 3/7] fix: convert i32::MIN and i64::MIN to the right field
 element

---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..06e02a4 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs();
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From fd4d75a7016952c06576088e4591518357ca32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:42 +0000
Subject: [PATCH 4/7] fix: check the subgroup of imported bn256 G2 points

---
 src/helpers/groth16/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
-- 
2.43.0


From dd891e27f3e7122f1418262bcd781068f47d127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 5/7] fix: reject serialized fixed-length vectors of the wrong
 length

---
 src/core/sizedvec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..68bda7c 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,11 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() != L::USIZE {
+            return Err(Error::invalid_length(v.len(), &"a list of the declared length"));
+        }
+        Ok(SizedVec::<T, L>(v, PhantomData))
     }
 }
 
-- 
2.43.0


From 2b92e57af1f6210f519a3c0fd211ca6ebf38c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:36 +0000
Subject: [PATCH 6/7] fix: use a quadratic non-residue as the bn256 scalar
 field generator

7 is a quadratic residue modulo the subgroup order, so the root of unity
derived from it has too small an order and square roots of some squares
panic (or never end without overflow checks).
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0


From 6a39928dba1e2262201c67120c5d7e7b2dd37ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:06 +0000
Subject: [PATCH 7/7] fix: return None, not panic, for a fixed-length vector of
 signals without values or constants

---
 src/core/signal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..e118715 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        let values: Option<Vec<_>> = self.iter().map(|v| v.get_value()).collect();
+        values.map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +73,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let values: Option<Vec<_>> = self.iter().map(|v| v.as_const()).collect();
+        values.map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0

