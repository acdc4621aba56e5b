From d40b212abae0be754cd5f6280793f807815e3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH] fix: represent an identity rk as (0, 0) in proof instances
 instead of panicking

---
 src/circuit.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..f0f31bf 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -13,7 +13,10 @@ use halo2_proofs::{
     transcript::{Blake2bRead, Blake2bWrite},
 };
 use memuse::DynamicUsage;
-use pasta_curves::{arithmetic::CurveAffine, pallas, vesta};
+use pasta_curves::{
+    arithmetic::{Coordinates, CurveAffine},
+    pallas, vesta,
+};
 use rand::RngCore;
 
 use self::{
@@ -840,14 +843,21 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
-        let rk = pallas::Point::from_bytes(&self.rk.clone().into())
-            .unwrap()
-            .to_affine()
-            .coordinates()
-            .unwrap();
+        // The identity is a valid encoding of a validating key, but it has no affine
+        // coordinates; the circuit represents it as (0, 0).
+        let (rk_x, rk_y) = Option::from(
+            pallas::Point::from_bytes(&self.rk.clone().into())
+                .unwrap()
+                .to_affine()
+                .coordinates(),
+        )
+        .map_or_else(
+            || (pallas::Base::zero(), pallas::Base::zero()),
+            |rk: Coordinates<pallas::Affine>| (*rk.x(), *rk.y()),
+        );
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+        instance[RK_X] = rk_x;
+        instance[RK_Y] = rk_y;
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0

