From e56d5fa86d122b704175a4b4ba943465824d3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 1/2] fix: compute forward/up/right by rotation only, exact far
 from the world origin

---
 src/extrinsics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..6ccf1f9 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,10 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        // Only rotate. Subtracting the camera center from a transformed point
+        // would lose all precision for cameras far from the world origin.
+        let dir = self.cache.pose_inv.transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0


From 42436f8395d22702415b88f0ae9bf8b67b5d6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 2/2] fix: do not divide by zero when normalizing camera
 matrices of cameras at the world origin

---
 src/camera.rs    | 8 +++++++-
 src/linearize.rs | 7 ++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..e89626b 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,13 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        // Normalize, unless impossible (e.g. camera center at world origin).
+        let scale = m[(2, 3)].clone();
+        if scale == nalgebra::convert(0.0) {
+            m
+        } else {
+            m / scale
+        }
     }
 }
 
diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..becf429 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -18,11 +18,8 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
             p33 * cam.extrinsics().matrix()
         };
 
-        // flip sign if focal length < 0
-        let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
-
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // The Jacobian does not depend on the scale of `m`. Do not normalize by
+        // `m[(2, 3)]`, which is zero e.g. for a camera center at world origin.
         Self { m }
     }
 
-- 
2.43.0

