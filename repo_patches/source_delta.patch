From a836b488b5ecaac95ba70a3c60fd7b65a52a5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:52 +0000
Subject: [PATCH 1/7] fix: EllStable keeps the shape factors consistent

The forward substitution stored L*inv(L)g products where the rank-one update
needs the partially reduced residuals, and the back substitution read that
scratch area instead of the factor, so after the first cut the represented
ellipsoid was wrong (off-diagonal factors were never created from a diagonal
start).
---
 src/ell_stable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..d309bbf 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -63,8 +63,9 @@ impl EllStable {
             let row_start_i = i * n;
             for j in 0..i {
                 let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
                 inv_ml_g[i] -= val;
+                // partially reduced residual, needed by the rank-one update below
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i];
             }
         }
 
@@ -93,7 +94,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
-- 
2.43.0


From ae468cca397c35c93797c7f0607c083d23b2a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:16 +0000
Subject: [PATCH 2/7] fix: EllStable survives a cut that leaves the shape
 unchanged

A successful cut with sigma == 0 (for instance a q cut at beta = -tau/n) made
the rank-one update compute inf/inf and filled the shape factors with NaN.
---
 src/ell_stable.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index d309bbf..6dd1fdb 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -104,6 +104,12 @@ impl EllStable {
             self.xc[i] -= rho_over_omega * g_t[i];
         }
 
+        if sigma == 0.0 {
+            // the shape is left as it is (a vanishing rank-one update would be inf/inf below)
+            self.kappa *= delta;
+            return status;
+        }
+
         // Rank-one update
         let mu_val = sigma / (1.0 - sigma);
         let mut oldt = omega / mu_val;
-- 
2.43.0


From 32e5fca1a20e15d19a059a8ec68e82b53c709810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:24 +0000
Subject: [PATCH 3/7] fix: bsearch hands the narrowed interval back

The interval is taken by mutable reference but was only copied out, so the
threshold the search located was lost to the caller.
---
 src/cutting_plane.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..a17e227 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -451,6 +451,7 @@ where
     for niter in 0..options.max_iters {
         let tau = (upper - lower) / 2.0;
         if tau < options.tolerance {
+            *intrvl = (lower, upper);
             return (upper != u_orig, niter);
         }
         let mut gamma = lower; // l may be `i32` or `Fraction`
@@ -462,5 +463,6 @@ where
             lower = gamma;
         }
     }
+    *intrvl = (lower, upper);
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From babf6af91c312f1cf70b0e8ef67ec1be77460266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:24 +0000
Subject: [PATCH 4/7] fix: conjugate_gradient accepts a starting point that
 already solves the system

With a zero initial residual (b = 0, or x0 exact) the first curvature term
vanishes and the solver reported failure instead of returning the solution.
---
 src/conjugate_gradient.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..89bc8dc 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -34,6 +34,9 @@ pub fn conjugate_gradient(
     let mut residual = b - &a.dot_mv(&x);
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
 
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
-- 
2.43.0


From a8f470e22912ccac6400c72d70cb4c80f24c3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:13 +0000
Subject: [PATCH 5/7] fix: report no solution for a pair of parallel cuts
 beyond the far side of the ellipsoid

---
 src/ell_calc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..1823954 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -754,7 +754,7 @@ impl EllCalc {
         beta1: f64,
         tsq: f64,
     ) -> (CutStatus, (f64, f64, f64)) {
-        if beta1 < beta0 {
+        if beta1 < beta0 || (beta1 < 0.0 && tsq < beta1 * beta1) {
             return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
         }
 
@@ -790,7 +790,7 @@ impl EllCalc {
         beta1: f64,
         tsq: f64,
     ) -> (CutStatus, (f64, f64, f64)) {
-        if beta1 < beta0 {
+        if beta1 < beta0 || (beta1 < 0.0 && tsq < beta1 * beta1) {
             return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
         }
 
-- 
2.43.0


From 1dd0353dcf99cb6d860fd90519ad8876fadc1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:15 +0000
Subject: [PATCH 6/7] fix: EllStable::new_with_matrix describes the ellipsoid
 it is given

---
 src/ell_stable.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 6dd1fdb..150b7e0 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -15,8 +15,9 @@ pub struct EllStable {
 }
 
 impl EllStable {
-    pub fn new_with_matrix(kappa: f64, mq: Arr, xc: Arr) -> EllStable {
+    pub fn new_with_matrix(kappa: f64, mut mq: Arr, xc: Arr) -> EllStable {
         let helper = EllCalc::new(xc.len());
+        EllStable::factorize(&mut mq);
         EllStable {
             kappa,
             mq,
@@ -26,6 +27,36 @@ impl EllStable {
         }
     }
 
+    /// Replace the shape matrix by its factors: $$ mq = L^{-T} D^{-1} L^{-1} $$, with $$ D^{-1} $$ kept on
+    /// the diagonal and $$ L^T $$ above it. A diagonal matrix is left as it is.
+    fn factorize(mq: &mut Arr) {
+        let n = mq.rows();
+        // mq = V * inv(D) * V', V = inv(L') unit upper triangular
+        for j in (1..n).rev() {
+            let diag = mq.at(j, j);
+            for i in (0..j).rev() {
+                if mq.at(i, j) == 0.0 {
+                    continue;
+                }
+                let val = mq.at(i, j) / diag;
+                for k in 0..=i {
+                    mq.set(k, i, mq.at(k, i) - val * mq.at(k, j));
+                }
+                mq.set(i, j, val);
+            }
+        }
+        // L' = inv(V)
+        for j in 1..n {
+            for i in 0..j {
+                let mut val = mq.at(i, j);
+                for k in (i + 1)..j {
+                    val += mq.at(i, k) * mq.at(k, j);
+                }
+                mq.set(i, j, 0.0 - val);
+            }
+        }
+    }
+
     pub fn new(val: Arr, xc: Arr) -> EllStable {
         EllStable::new_with_matrix(1.0, Arr::from_diag(&val), xc)
     }
-- 
2.43.0


From 56d49ff263c75b32ac91ffff2ca3dd5f325a0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 7/7] fix: standard low-pass case asked for a lower passband
 level above the upper one

---
 src/oracles/lowpass_oracle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..f37e2f5 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -153,7 +153,7 @@ impl OracleOptim<Arr> for LowpassOracle {
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
     let delta0_wpass = 0.025;
     let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
+    let delta1 = 20.0 * (1.0f64 + delta0_wpass).log10();
     let delta2 = 20.0 * (delta0_wstop * PI).log10();
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
-- 
2.43.0

