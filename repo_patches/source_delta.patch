From 8ea62df66f31f68db5cab6d111eb4e8c3161fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 1/5] fix: GERG density with phase checks reports success when
 the checks pass

With iflag 1 or 2 every converged state was reported as IterationFail.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..3e5541d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From aba966dd8bd98acd2261df570132e99e67dcdd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 2/5] fix: reject a composition whose sum is not a number

---
 src/composition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..60298ff 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,7 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        if (self.sum() - 1.0).abs() > 1.0e-2 || self.sum().is_nan() {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From ec46207331d442b4cdd27d8feb5a484fcae939e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 3/5] fix: recompute cached terms on any change of composition
 or temperature

The remembered inputs were updated even when a change was too small to
trigger a recalculation, so many small changes added up without the cached
terms ever being renewed, and results depended on the calculation history.
---
 src/detail.rs   | 4 ++--
 src/gerg2008.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 3e5541d..bc3f0b7 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 7546725f0ed6af4708526c4b63b1d3923d650bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 4/5] fix: report zero and negative pressure as PressureTooLow
 in both density solvers

GERG reported IterationFail, and a negative pressure left a negative
density that the next call took as its start estimate.
---
 src/detail.rs   | 2 +-
 src/gerg2008.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..4752854 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1304,7 +1304,7 @@ impl Detail {
         let mut vdiff: f64;
         let mut p2: f64;
 
-        if self.p.abs() < EPSILON {
+        if self.p < EPSILON {
             self.d = 0.0;
             return Err(DensityError::PressureTooLow);
         }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index bc3f0b7..8fef94d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4292,6 +4292,11 @@ impl Gerg2008 {
         let mut ifail: i32 = 0;
         const TOLR: f64 = 0.000_000_1;
 
+        if self.p < EPSILON {
+            self.d = 0.0;
+            return Err(DensityError::PressureTooLow);
+        }
+
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
         if self.d > -EPSILON {
-- 
2.43.0


From e2dcec56e731a59e7174c9dfab6d0d1b04f26583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 5/5] fix: do not use a density that is not a number as start
 estimate

After one call with a NaN pressure or temperature the next call with valid
inputs failed (DETAIL) or searched from the liquid side (GERG).
---
 src/detail.rs   | 2 +-
 src/gerg2008.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 4752854..9662140 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1309,7 +1309,7 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         } else {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 8fef94d..8f988eb 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4299,7 +4299,7 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
-- 
2.43.0

