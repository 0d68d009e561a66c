From 93d4cf35d03d9391b041d0aeea8fb39e7612f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 1/4] fix: Gauss-Jacobi rules with alpha + beta = -1 or both
 parameters near -1

The total weight was computed as 2^(a+b+1) G(a+1) G(b+1) / G(a+b+1) / (a+b+1)
and the first off-diagonal element contained (1+a+b)/(denom-1) with
denom - 1 = 1+a+b, so that every rule of degree >= 2 with alpha + beta = -1
(other than the delegated Chebyshev case) consisted of NaN. Sums close to -1,
and parameters both close to -1, lost all accuracy to the same cancellations
and to that in b^2 - a^2.
---
 src/jacobi/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..4511173 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -84,13 +84,16 @@ impl GaussJacobi {
             _ => (),
         }
 
+        // alpha + beta + 2, without cancellation when both parameters are close to -1.
+        let sum_p2 = (alpha.get() + 1.0) + (beta.get() + 1.0);
+
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
-            let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
+            let node = (beta.get() - alpha.get()) / sum_p2;
             let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+                / gamma(sum_p2);
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -102,31 +105,36 @@ impl GaussJacobi {
             deg,
             |idx| {
                 if idx == 0 {
-                    (beta.get() - alpha.get()) / (2.0 + beta.get() + alpha.get())
+                    (beta.get() - alpha.get()) / sum_p2
                 } else {
-                    let denom_sum = 2.0 * (idx as f64) + alpha.get() + beta.get();
-                    (beta.get() * beta.get() - alpha.get() * alpha.get())
+                    let denom_sum = 2.0 * (idx as f64 - 1.0) + sum_p2;
+                    (beta.get() - alpha.get()) * (beta.get() + alpha.get())
                         / (denom_sum * (denom_sum + 2.0))
                 }
             },
             |idx| {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
-                let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                let denom_sum = 2.0 * idx_f64 + sum_p2;
+                if idx == 0 {
+                    // The factors 1 + alpha + beta and denom_sum - 1 cancel,
+                    // and they are zero when alpha + beta = -1.
+                    return 2.0 / denom_sum
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (denom_sum + 1.0));
+                }
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
                             * (idx_p1 + alpha.get())
                             * (idx_p1 + beta.get())
-                            * (idx_p1 + alpha.get() + beta.get())
+                            * ((idx_f64 - 1.0) + sum_p2)
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(sum_p2),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From fecb5c107bf80218744b30cb1e738ace7432aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 2/4] fix: overflow of the total weight of Gauss rules with
 large parameters

Gauss-Jacobi rules computed 2^(a+b+1) G(a+1) G(b+1) / G(a+b+2) factor by factor,
so that all weights were zero, infinite or NaN as soon as one factor overflowed
although the total weight is a moderate number (e.g. a = 120, b = 60). In
gamma itself the power overflowed for arguments above 169 while the result
is representable up to 171, which made Gauss-Laguerre weights infinite.
---
 src/jacobi/mod.rs | 12 +++---------
 src/math.rs       | 47 +++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 4511173..ca2ff29 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -27,7 +27,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use crate::{
     __impl_node_weight_rule, FiniteAboveNegOneF64, GaussChebyshevFirstKind,
     GaussChebyshevSecondKind, GaussLegendre, Node, Weight,
-    math::{gamma, pow, sqrt},
+    math::{scaled_beta, sqrt},
 };
 
 use crate::golub_welsch::golub_welsch;
@@ -90,10 +90,7 @@ impl GaussJacobi {
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
             let node = (beta.get() - alpha.get()) / sum_p2;
-            let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(sum_p2);
+            let weight = scaled_beta(alpha.get() + 1.0, beta.get() + 1.0);
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -131,10 +128,7 @@ impl GaussJacobi {
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
-            pow(2.0f64, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(sum_p2),
+            scaled_beta(alpha.get() + 1.0, beta.get() + 1.0),
         );
 
         // TO FIX: implement correction
diff --git a/src/math.rs b/src/math.rs
index afa59e8..fe44f11 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -125,14 +125,49 @@ pub(crate) fn gamma(x: f64) -> f64 {
 
         PI / (sin(PI * x) * s * TWO_SQRT_E_OVER_PI * pow((0.5 - x + GAMMA_R) / E, 0.5 - x))
     } else {
-        let s = GAMMA_DK
-            .iter()
-            .enumerate()
-            .skip(1)
-            .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
+        let s = lanczos_sum(x);
+        let base = (x - 0.5 + GAMMA_R) / E;
+
+        if x > 160.0 {
+            // The power overflows before the gamma function does, so apply it in two halves.
+            let half_pow = pow(base, 0.5 * (x - 0.5));
+            s * TWO_SQRT_E_OVER_PI * half_pow * half_pow
+        } else {
+            s * TWO_SQRT_E_OVER_PI * pow(base, x - 0.5)
+        }
+    }
+}
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+/// The sum in the Lanczos approximation of the gamma function for `x >= 0.5`.
+fn lanczos_sum(x: f64) -> f64 {
+    GAMMA_DK
+        .iter()
+        .enumerate()
+        .skip(1)
+        .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0))
+}
+
+/// Computes 2^(p + q - 1) gamma(p) gamma(q) / gamma(p + q) for positive `p` and `q`.
+///
+/// The result is often representable when the individual factors are not,
+/// so the powers in the Lanczos approximations of the factors are combined.
+pub(crate) fn scaled_beta(p: f64, q: f64) -> f64 {
+    if p < 0.5 {
+        return 0.5 * (p + q) / p * scaled_beta(p + 1.0, q);
+    }
+    if q < 0.5 {
+        return 0.5 * (p + q) / q * scaled_beta(p, q + 1.0);
     }
+
+    let denom = p + q - 0.5 + GAMMA_R;
+    let half_pow = pow(2.0 * (p - 0.5 + GAMMA_R) / denom, 0.5 * (p - 0.5))
+        * pow(2.0 * (q - 0.5 + GAMMA_R) / denom, 0.5 * (q - 0.5));
+
+    lanczos_sum(p) * lanczos_sum(q) / lanczos_sum(p + q)
+        * TWO_SQRT_E_OVER_PI
+        * sqrt(E / denom)
+        * half_pow
+        * half_pow
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1f2578a6d7bb04b7c61e33a27acc20b93f16020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 3/4] fix: deserialization of FiniteAboveNegOneF64 bypassed its
 validation

The derived Deserialize implementation accepted NaN, infinities and values at
or below -1, which the type guarantees never to hold. The serialized form is
unchanged.
---
 src/data_api.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..66054f0 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -24,6 +24,7 @@ pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "UncheckedF64"))]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
@@ -40,6 +41,22 @@ pub type Weight = f64;
 /// A wrapper around an [`f64`] that ensures the value is greater than -1.0, finite, and not [`NAN`](f64::NAN).
 pub struct FiniteAboveNegOneF64(f64);
 
+/// The serialized form of [`FiniteAboveNegOneF64`], whose value must be validated when it is deserialized.
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+#[serde(rename = "FiniteAboveNegOneF64")]
+struct UncheckedF64(f64);
+
+#[cfg(feature = "serde")]
+impl TryFrom<UncheckedF64> for FiniteAboveNegOneF64 {
+    type Error = InfNanNegOneOrLessError;
+
+    #[inline]
+    fn try_from(value: UncheckedF64) -> Result<Self, Self::Error> {
+        value.0.try_into()
+    }
+}
+
 impl fmt::Display for FiniteAboveNegOneF64 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From dad5f4ffb3af51db56f4ea87831efc1000841de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 4/4] fix: derive the rkyv and zerocopy traits for all
 quadrature rule structs

The features are documented to implement the traits for the quadrature rule
structs, but GaussChebyshevSecondKind had no rkyv traits, and Midpoint, Simpson
and Trapezoid had neither.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 5 +++++
 src/simpson/mod.rs   | 5 +++++
 src/trapezoid/mod.rs | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..6ed0d75 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..1ae402e 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..4e012f8 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..d7577bf 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,11 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0

