From 04ebc2aac17c838ccacddd13373ca6b4a99ea10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 1/2] fix: undo the pending conditional swap at the end of the
 Montgomery ladder

Without it the ladder returned the u-coordinate of [s+1]P for every odd scalar s.
---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..04f396e 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // Undo the swap that the last processed bit left pending
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From f52703f5420dae901fe9a8397b21a6629f5360d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:14 +0000
Subject: [PATCH 2/2] fix: recognise non-canonical encodings in
 MontgomeryPoint::is_low_order

---
 src/curve/montgomery/montgomery.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index 04f396e..37c5a99 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,12 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // Compare field elements, not encodings: non-canonical encodings of the
+        // low order points decode to the same points
+        let u = FieldElement::from_bytes(&self.0);
+        (u == FieldElement::from_bytes(&LOW_A.0))
+            || (u == FieldElement::from_bytes(&LOW_B.0))
+            || (u == FieldElement::from_bytes(&LOW_C.0))
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0

