From c11fd8d8f51a0370da3a657b8781239e64456930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 001/132] fix: Empty constraint on arrays accepted exactly the
 non-empty ones

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..c76cd22 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { vec.len() == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From 9eaaa435a18b415ede962395a0e18d2ac2b752ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 002/132] fix: choose(n, k) underflowed for k > n instead of
 returning 0

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 08220d5..617dc40 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -21,6 +21,10 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
 }
 
 pub fn choose(n: u64, k: u64) -> u64 {
+    if k > n {
+        return 0;
+    }
+
     let k = if k > n - k { n - k } else { k };
 
     (0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))
-- 
2.43.0


From 1d1d3e704eb86431bb4ef3aa568d824fef554582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 003/132] fix: Pareto::new accepted a non-positive x_m

---
 src/univariate/pareto.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..824127a 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -9,11 +9,13 @@ use rand::Rng;
 use spaces::intervals::LeftClosed;
 use std::{f64::INFINITY, fmt};
 
-locscale_params! {
+pub use crate::params::{Scale, Shape};
+
+params! {
     #[derive(Copy)]
     Params {
-        x_m<f64>,
-        alpha<f64>
+        x_m: Scale<f64>,
+        alpha: Shape<f64>
     }
 }
 
-- 
2.43.0


From 03abe6f05d251e5187ca8e458809252bfd51fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 004/132] fix: StudentT::new accepted non-positive degrees of
 freedom

---
 src/univariate/student_t.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..41525f2 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -10,12 +10,12 @@ use rand::Rng;
 use spaces::real::{Reals, reals};
 use std::fmt;
 
-pub use crate::params::Loc;
+pub use crate::params::DOF;
 
 params! {
     #[derive(Copy)]
     Params {
-        nu: Loc<f64>
+        nu: DOF<f64>
     }
 }
 
-- 
2.43.0


From 357c8f097e728c85c2c1624e67cb81c9ed03c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 005/132] fix: SimplexVector::sample divided by the sum of the
 uniforms and left the simplex

---
 src/probability.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..136896e 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -374,7 +374,7 @@ impl<const K: usize> SimplexVector<K> {
     /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -390,22 +390,17 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
+        for i in 0..K {
             let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
 
-            sum += s;
             probs[i] = -s.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
+        for i in 0..K {
             probs[i] /= sum;
-            alt += probs[i];
         }
 
-        probs[0] = 1.0 - alt;
-
         SimplexVector(probs)
     }
 }
-- 
2.43.0


From e1545b4ea6801234d7e44ebf938f71a9d79c957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 006/132] fix: Arcsine entropy ignored the width

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 7eb766b..e5e17a9 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -110,7 +110,7 @@ impl Modes for Arcsine {
 }
 
 impl ShannonEntropy for Arcsine {
-    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() }
+    fn shannon_entropy(&self) -> f64 { (PI_OVER_4 * self.0.w.0).ln() }
 }
 
 impl fmt::Display for Arcsine {
-- 
2.43.0


From 0f5e9e76528c12e344b20fb5b7bb70b1a2768858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 007/132] fix: Bernoulli cdf(false) was 0 instead of 1 - p

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..52a880b 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
-- 
2.43.0


From 76c5f395d4e9939f70f307d6328a8bae005b07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 008/132] fix: Bernoulli kurtosis and excess kurtosis were too
 small by 3

---
 src/univariate/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 52a880b..0c4d44f 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
-- 
2.43.0


From fd41070c2cb3d3e070938f3d1a8e7720b6c8482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 009/132] fix: Bernoulli mode was false for p > 1/2

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 0c4d44f..16c20b8 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
-- 
2.43.0


From 276bf0886ab494cd04bc59a111f966aa7c3f05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 010/132] fix: Beta excess kurtosis was missing its grouping
 and factor

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..a31ec63 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -110,7 +110,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / (amb * apbp2 * (apb + 3.0))
     }
 }
 
-- 
2.43.0


From 09c19a4bae785b98b8dfeb9efc2729c9b54c925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 011/132] fix: Beta modes were empty when only one of the
 shapes is at most 1

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index a31ec63..418d26e 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -146,6 +146,10 @@ impl Modes for Beta {
             vec![(a - 1.0) / (a + b - 2.0)]
         } else if a < 1.0 && b < 1.0 {
             vec![0.0, 1.0]
+        } else if a <= 1.0 && b >= 1.0 && a < b {
+            vec![0.0]
+        } else if a >= 1.0 && b <= 1.0 && a > b {
+            vec![1.0]
         } else {
             vec![]
         }
-- 
2.43.0


From 38a3ce5e611316ed83c6e75963b278126a4a39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 012/132] fix: BetaBinomial skewness did not match the
 distribution

---
 src/univariate/beta_binomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 224f163..141a1b9 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -105,13 +105,10 @@ impl UvMoments for BetaBinomial {
         let (n, alpha, beta) = get_params!(self);
         let n = n as f64;
 
-        let ap1 = alpha + 1.0;
-        let ap2 = ap1 + 1.0;
-
-        // Compute bracket term:
-        let b = n * n * ap1 * ap2 + 3.0 * n * ap1 * beta + beta * (beta - alpha);
+        let apb = alpha + beta;
+        let root = ((1.0 + apb) / (n * alpha * beta * (n + apb))).sqrt();
 
-        self.pi * self.rho * n * b / (ap2 + beta)
+        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0) * root
     }
 
     fn kurtosis(&self) -> f64 {
-- 
2.43.0


From 036edbe7a07d2d487dc9d429627274b149c777c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 013/132] fix: BetaBinomial kurtosis did not match the
 distribution

---
 src/univariate/beta_binomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 141a1b9..428f848 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -117,9 +117,9 @@ impl UvMoments for BetaBinomial {
 
         let apb = alpha + beta;
 
-        let b1 = alpha
-            / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
-        let b2 = (apb - 1.0 + 6.0 * n) / alpha;
+        let b1 = apb * apb * (1.0 + apb)
+            / (n * alpha * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
+        let b2 = apb * (apb - 1.0 + 6.0 * n);
         let b3 = 3.0 * alpha * beta * (n - 2.0);
         let b4 = 6.0 * n * n;
         let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
-- 
2.43.0


From 433f29e33cde1550648e6a3309e604deea2760e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 014/132] fix: BetaPrime excess kurtosis was wrong and reported
 where it does not exist

---
 src/univariate/beta_prime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8484564..500be83 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -110,9 +110,14 @@ impl UvMoments for BetaPrime {
 
     fn excess_kurtosis(&self) -> f64 {
         let (a, b) = get_params!(self);
+
+        if b <= 4.0 {
+            undefined!("kurtosis is undefined for values of beta <= 4.")
+        }
+
         let bm1 = b - 1.0;
 
-        let numerator = 6.0 * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0);
+        let numerator = 6.0 * (a * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0));
         let denominator = a * (a + bm1) * (b - 3.0) * (b - 4.0);
 
         numerator / denominator
-- 
2.43.0


From cff2bf0939fc16859ce4157c7ebcfa5760b9a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 015/132] fix: BetaPrime entropy was that of the Beta
 distribution

---
 src/univariate/beta_prime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 500be83..00bc8d3 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -143,8 +143,8 @@ impl ShannonEntropy for BetaPrime {
         let (a, b) = get_params!(self);
         let apb = a + b;
 
-        a.logbeta(b) - (a - 1.0) * a.digamma() - (b - 1.0) * b.digamma()
-            + (apb - 2.0) * apb.digamma()
+        a.logbeta(b) - (a - 1.0) * a.digamma() - (b + 1.0) * b.digamma()
+            + apb * apb.digamma()
     }
 }
 
-- 
2.43.0


From 714746cda05187e205e502b4bdb672ab8e599ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 016/132] fix: Binomial cdf underflowed or was undefined for k
 >= n

---
 src/univariate/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..9111d8f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -66,6 +66,10 @@ impl Distribution for Binomial {
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
-- 
2.43.0


From 818d982125c1fb6a9e9de5692c4b503848755c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 017/132] fix: Binomial kurtosis returned the excess kurtosis

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 9111d8f..f7ad21a 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -118,7 +118,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
-- 
2.43.0


From ef1acebe9c6a672d4863418695057e4a8a072ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 018/132] fix: Binomial modes rounded np instead of (n + 1)p

---
 src/univariate/binomial.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index f7ad21a..151ea2a 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -136,7 +136,16 @@ impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        let x = p * (n + 1) as f64;
+        let m = x.floor() as usize;
+
+        if m > n {
+            vec![n]
+        } else if m > 0 && x == m as f64 {
+            vec![m - 1, m]
+        } else {
+            vec![m]
+        }
     }
 }
 
-- 
2.43.0


From 2bf4d665202ec03d6d56dc46ba8f47cbb81beb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 019/132] fix: Categorical cdf left out the mass at x

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..85f9f69 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From c458e5790c3289cff78b6b35b476e82ae7bda1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 020/132] fix: Chi cdf swapped the arguments of the incomplete
 gamma function

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0b1a937..9de0c72 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,7 +43,7 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
+        Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From a9472a932357a87ca66ba051ceb41d5335fb64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 021/132] fix: Chi entropy was missing a factor of one half

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 9de0c72..beecb7c 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -119,7 +119,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma())
+        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From d2134131bd8c4e523513628e09c64462239025c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 022/132] fix: ChiSq cdf swapped the arguments of the
 incomplete gamma function and normalised twice

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..d49a1ea 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked((x / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 1da9bd2a1d50d69256381d45490e3e8605647a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 023/132] fix: Cosine pdf was not divided by the scale

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index ffbaa21..a4ce0c8 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -66,7 +66,7 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) }
+    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) / self.0.s.0 }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 65551811300658e7f40106fcf1a8c5f867c301f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 024/132] fix: Cosine excess kurtosis used 60 for 90

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index a4ce0c8..bc5b7de 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -85,7 +85,7 @@ impl UvMoments for Cosine {
     fn excess_kurtosis(&self) -> f64 {
         let v = PI2 - 6.0;
 
-        6.0 * (60.0 - PI4) / 5.0 / v / v
+        6.0 * (90.0 - PI4) / 5.0 / v / v
     }
 }
 
-- 
2.43.0


From ca49b117a0daff86f1f7398e6ed7c9e14d0a7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 025/132] fix: Erlang log_cdf swapped the arguments of the
 incomplete gamma function and normalised twice

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index b189d5d..eccc721 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,7 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc(lambda * x).ln() - crate::utils::log_factorial_stirling(k as u64)
+        (lambda * x).gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From ab0eb2c3d8eb1253eec29d663d1e161777afbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 026/132] fix: Erlang log_pdf used x for ln x

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index eccc721..fa760e1 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -63,7 +63,7 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        k as f64 * lambda.ln() + (k - 1) as f64 * x
+        k as f64 * lambda.ln() + (k - 1) as f64 * x.ln()
             - lambda * x
             - crate::utils::log_factorial_stirling(k as u64 - 1)
     }
-- 
2.43.0


From 9f38dffed31520c6b5bab4adf4f87605b4454191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 027/132] fix: Exponential kurtosis was 3 instead of 9

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..6e33786 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -78,7 +78,7 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
-- 
2.43.0


From 84e8fd1dcfc184971cb3c9dc9919eaf9404717e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 028/132] fix: Exponential quantile was missing the logarithm

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 6e33786..f63ecea 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -84,7 +84,7 @@ impl UvMoments for Exponential {
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap().ln()) / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
-- 
2.43.0


From 19832d9893a1703cacd72d60e7e07120fea4bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 029/132] fix: FDist skewness was reported where it does not
 exist

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..619edae 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -107,7 +107,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
-- 
2.43.0


From b24aa3fe28f72da079b074c169d3f8fae051477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 030/132] fix: FDist excess kurtosis was wrong and reported
 where it does not exist

---
 src/univariate/f_dist.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 619edae..bf1249d 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -121,13 +121,13 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
-- 
2.43.0


From 97cf243336b0091aa2829bb6433e751dd9c2a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 031/132] fix: FDist entropy did not match the distribution

---
 src/univariate/f_dist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index bf1249d..9e1a805 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -160,10 +160,10 @@ impl ShannonEntropy for FDist {
         let d2o2 = d2 / 2.0;
 
         d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
-            + (1.0 - d1o2) * (1.0 + d1o2).digamma()
-            - (1.0 - d2o2) * (1.0 + d2o2).digamma()
+            + (1.0 - d1o2) * d1o2.digamma()
+            - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-            + (d1 / d2).ln()
+            + (d2 / d1).ln()
     }
 }
 
-- 
2.43.0


From 38564f7945f165246654b8dc77909cc9e5b09a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 032/132] fix: FoldedNormal modes depended on the sign of mu

---
 src/univariate/folded_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..81ba25e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -126,10 +126,10 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
+        if mu.abs() <= sigma {
             vec![0.0]
         } else {
-            vec![mu]
+            vec![mu.abs()]
         }
     }
 }
-- 
2.43.0


From 4ef9ebea7cba7f8f6322dca9fdcaafb06b11faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 033/132] fix: Gamma cdf swapped the arguments of the
 incomplete gamma function and normalised twice

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..e8076cc 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked((b * x).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From d8a3242ad293610ece29af5b192aa4ce1f2de759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 034/132] fix: Geometric entropy was in bits

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..ce3283a 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -99,7 +99,7 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
-        (-q * q.log2() - p * p.log2()) / p
+        (-q * q.ln() - p * p.ln()) / p
     }
 }
 
-- 
2.43.0


From 90aa7bf0871572b251638a516c233df3e9ffa34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 035/132] fix: Geometric median was not rounded up to a point
 of the support

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index ce3283a..ddfba39 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From 0b4da00a5bd6f2818cd2821e5d9f58fbec6f92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 036/132] fix: GeneralisedPareto mean and variance were refused
 exactly where they exist

---
 src/univariate/gpd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index dca93f8..68fcade 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -72,8 +72,8 @@ impl UvMoments for GeneralisedPareto {
     fn mean(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        if zeta <= 1.0 {
-            undefined!("Mean is undefined for zeta <= 1.")
+        if zeta >= 1.0 {
+            undefined!("Mean is undefined for zeta >= 1.")
         } else {
             mu + sigma / (1.0 - zeta)
         }
@@ -83,8 +83,8 @@ impl UvMoments for GeneralisedPareto {
         let zeta = self.0.zeta.0;
         let sigma = self.0.sigma.0;
 
-        if zeta <= 0.5 {
-            undefined!("Variance is undefined for zeta <= 1/2.")
+        if zeta >= 0.5 {
+            undefined!("Variance is undefined for zeta >= 1/2.")
         } else {
             sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)
         }
-- 
2.43.0


From 4dc6c85ad58a21836a529fa680d574c505470ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 037/132] fix: GeneralisedPareto skewness and kurtosis were
 refused exactly where they exist

---
 src/univariate/gpd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 68fcade..fb13e0f 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -93,8 +93,8 @@ impl UvMoments for GeneralisedPareto {
     fn skewness(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= ONE_THIRD {
+            undefined!("Skewness is undefined for zeta >= 1/3.")
         } else {
             2.0 * (1.0 + zeta) * (1.0 - 2.0 * zeta).sqrt() / (1.0 - 3.0 * zeta)
         }
@@ -103,8 +103,8 @@ impl UvMoments for GeneralisedPareto {
     fn excess_kurtosis(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= 0.25 {
+            undefined!("Kurtosis is undefined for zeta >= 1/4.")
         } else {
             3.0 * (1.0 - 2.0 * zeta) * (2.0 * zeta * zeta + zeta + 3.0)
                 / (1.0 - 3.0 * zeta)
-- 
2.43.0


From c6f463f4e87214872d4ee13793146604fc00ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 038/132] fix: InvGamma cdf used the lower incomplete gamma
 function with swapped arguments

---
 src/univariate/inverse_gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index f78a3c4..a146b88 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -52,7 +52,7 @@ impl Distribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(alpha.gammainc(beta / x) / alpha.gamma())
+        Probability::new_unchecked((beta / x).gammac(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From b0562d90e3d92560eb96bfe38e6dbc3c3ab728a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 039/132] fix: InvNormal cdf evaluated its second term at the
 wrong point

---
 src/univariate/inverse_normal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..56ec788 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -76,7 +76,8 @@ impl Distribution for InvNormal {
         let inner_term = lox_sqrt * (xom - 1.0);
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let outer_term = -lox_sqrt * (xom + 1.0);
+        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&outer_term).unwrap();
 
         Probability::new_unchecked(term1 + term2)
     }
-- 
2.43.0


From b6fae9063c186c233955f498025f92661d9e86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 040/132] fix: InvNormal excess kurtosis used 16 for 15

---
 src/univariate/inverse_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 56ec788..bb66aea 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -133,7 +133,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
-- 
2.43.0


From ab76acf2fd23a538beea742f0aacc91c22b2c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 041/132] fix: Kumaraswamy entropy rounded b down

---
 src/univariate/kumaraswamy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..2ed2fd6 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -10,7 +10,11 @@ use spaces::intervals::Closed;
 use std::fmt;
 
 #[inline]
-fn harmonic_n(n: usize) -> f64 { (1..=n).map(|i| 1.0 / i as f64).sum() }
+fn harmonic(x: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    (x + 1.0).digamma() - 1.0f64.digamma()
+}
 
 shape_params! {
     #[derive(Copy)]
@@ -116,7 +120,7 @@ impl Modes for Kumaraswamy {
 impl ShannonEntropy for Kumaraswamy {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
-        let hb = harmonic_n(b.floor() as usize);
+        let hb = harmonic(b);
 
         (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()
     }
-- 
2.43.0


From da284de7b27b5e2c02b4d75d2381c1fa8d09bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 042/132] fix: Kumaraswamy modes were empty when a shape is
 below 1

---
 src/univariate/kumaraswamy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 2ed2fd6..20f2c56 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -111,6 +111,12 @@ impl Modes for Kumaraswamy {
 
         if (a > 1.0 && b >= 1.0) || (a >= 1.0 && b > 1.0) {
             vec![((a - 1.0) / (a * b - 1.0)).powf(1.0 / a)]
+        } else if a < 1.0 && b < 1.0 {
+            vec![0.0, 1.0]
+        } else if a < 1.0 {
+            vec![0.0]
+        } else if b < 1.0 {
+            vec![1.0]
         } else {
             vec![]
         }
-- 
2.43.0


From dcce438c29bdbf6ae1bb1231d1c97fd509e949d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 043/132] fix: Laplace cdf returned the density

---
 src/univariate/laplace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..7d25319 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -44,8 +44,9 @@ impl Distribution for Laplace {
 
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, b) = get_params!(self);
+        let tail = (-(x - mu).abs() / b).exp() / 2.0;
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(if *x <= mu { tail } else { 1.0 - tail })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 7b9c4874f6b3c920704d98a3ac760dd452caacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 044/132] fix: Laplace pdf returned the distribution function

---
 src/univariate/laplace.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 7d25319..8b75d1c 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -61,17 +61,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-(x - mu).abs() / b).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From 2838f940b745eb728e02d01f9940778efb7ba6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 045/132] fix: Levy cdf was missing the square root

---
 src/univariate/levy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 7d3eae0..01ce597 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -45,7 +45,7 @@ impl Distribution for Levy {
 
         let (mu, c) = get_params!(self);
 
-        Probability::new_unchecked((c / 2.0 / (x - mu)).erfc())
+        Probability::new_unchecked((c / 2.0 / (x - mu)).sqrt().erfc())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 226afe7c10611043bcf5a69630c11a171e0057aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 046/132] fix: Levy mode was refused unless mu is 0

---
 src/univariate/levy.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 01ce597..58f8d3c 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -89,11 +89,7 @@ impl Quantiles for Levy {
 
 impl Modes for Levy {
     fn modes(&self) -> Vec<f64> {
-        if self.0.mu.0.abs() < 1e-7 {
-            vec![self.0.c.0 / 3.0]
-        } else {
-            undefined!("mode of the Levy distribution is defined only for mu = 0.")
-        }
+        vec![self.0.mu.0 + self.0.c.0 / 3.0]
     }
 }
 
-- 
2.43.0


From 285bc552f8d8967d301a93c328771cfc15da532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 047/132] fix: LogNormal pdf was missing the factor 1/x

---
 src/univariate/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..9f63bb8 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -69,7 +69,7 @@ impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
-- 
2.43.0


From 9c5a584fa843e7e6096ffbf3a85d46fd98fee72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 048/132] fix: LogNormal entropy was in bits and took the
 variance for the standard deviation

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 9f63bb8..a1879b5 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -120,9 +120,9 @@ impl Modes for LogNormal {
 
 impl ShannonEntropy for LogNormal {
     fn shannon_entropy(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (sigma * (mu + 0.5).exp() * PI_2.sqrt()).log2()
+        (sigma2.sqrt() * (mu + 0.5).exp() * PI_2.sqrt()).ln()
     }
 }
 
-- 
2.43.0


From 0ffdcabf0e1ae8f0b0f219494b94a2046bff6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 049/132] fix: LogNormal mode took the variance for the
 standard deviation

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index a1879b5..ba7fe0d 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -112,9 +112,9 @@ impl Quantiles for LogNormal {
 
 impl Modes for LogNormal {
     fn modes(&self) -> Vec<f64> {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        vec![(mu - sigma * sigma).exp()]
+        vec![(mu - sigma2).exp()]
     }
 }
 
-- 
2.43.0


From 7585be9c01ddccdb07aa47fe0e44965c3d0213a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 050/132] fix: LogNormal mean and variance took the variance
 for the standard deviation

---
 src/univariate/lognormal.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index ba7fe0d..2a11839 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -77,14 +77,13 @@ impl Univariate for LogNormal {}
 
 impl UvMoments for LogNormal {
     fn mean(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (mu + sigma * sigma / 2.0).exp()
+        (mu + sigma2 / 2.0).exp()
     }
 
     fn variance(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
-        let sigma2 = sigma * sigma;
+        let (mu, sigma2) = get_params!(self);
 
         (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
     }
-- 
2.43.0


From 3a687f3ff88016fce6e7ce3ad407aaf530f6727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 051/132] fix: LogNormal skewness and kurtosis took the
 variance for the standard deviation

---
 src/univariate/lognormal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 2a11839..3a0b0e3 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -89,15 +89,13 @@ impl UvMoments for LogNormal {
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
-- 
2.43.0


From d36b06fe749ed89c40b3533067fb3a44f73c46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 052/132] fix: Poisson kurtosis returned the excess kurtosis

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..4cb4072 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
-- 
2.43.0


From 644d6b516fa8f6350eec62f6e7a522d31e8948f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 053/132] fix: Rayleigh cdf multiplied by sigma instead of
 dividing

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index cc10159..d95a80d 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -52,7 +52,7 @@ impl Distribution for Rayleigh {
     fn cdf(&self, x: &f64) -> Probability {
         let sigma = get_sigma!(self);
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma * sigma / 2.0).exp())
+        Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 71f5fd7c4d20e1daa1abd82bb22a580ccbcabae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 054/132] fix: Rayleigh kurtosis constant was missing its
 grouping

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index d95a80d..c1b5b03 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -15,7 +15,7 @@ const FOUR_MINUS_PI: f64 = 4.0 - PI;
 const FOUR_MINUS_PI_OVER_2: f64 = FOUR_MINUS_PI / 2.0;
 
 const EXCESS_KURTOSIS: f64 =
-    1.5 * PI2 - 6.0 * PI + 16.0 / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
+    (24.0 * PI - 6.0 * PI2 - 16.0) / FOUR_MINUS_PI / FOUR_MINUS_PI;
 const KURTOSIS: f64 = EXCESS_KURTOSIS + 3.0;
 
 pub use crate::params::Shape;
-- 
2.43.0


From c14497b47ee3c9264d39ee0524ee17641c62ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 055/132] fix: StudentT cdf permuted the hypergeometric
 arguments and multiplied by a gamma factor

---
 src/univariate/student_t.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 41525f2..eb26b59 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -46,10 +46,10 @@ impl Distribution for StudentT {
 
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
+        let hyp2f1 = (-x * x / nu).hyp2f1(0.5, np1o2, 3.0 / 2.0);
 
         Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
+            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() / (nu / 2.0).gamma(),
         )
     }
 
-- 
2.43.0


From 6bc9e963f89eaae07c2d1d26bda44ec4ed058315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 056/132] fix: StudentT entropy used gamma for digamma and left
 out the logarithm

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index eb26b59..55340b6 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -136,7 +136,7 @@ impl ShannonEntropy for StudentT {
         let no2 = nu / 2.0;
         let np1o2 = (nu + 1.0) / 2.0;
 
-        np1o2 * (np1o2.gamma() - no2.gamma()) + (nu.sqrt() * (no2.beta(0.5)))
+        np1o2 * (np1o2.digamma() - no2.digamma()) + (nu.sqrt() * (no2.beta(0.5))).ln()
     }
 }
 
-- 
2.43.0


From 51d780ebb244bfb4500e6ff90718204d4976f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 057/132] fix: Triangular pdf was flat within 1e-7 of the mode,
 even outside the support

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..6684cb7 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -93,7 +93,7 @@ impl ContinuousDistribution for Triangular {
         match *x {
             x if x <= a => 0.0,
 
-            x if (x - c).abs() < 1e-7 => 2.0 / (b - a),
+            x if x == c => 2.0 / (b - a),
 
             x if x < c => 2.0 * (x - a) / (b - a) / (c - a),
 
-- 
2.43.0


From 86dd5c30c038e6ec7578ba80654b32445978f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 058/132] fix: Triangular mean divided by 2

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 6684cb7..cd37710 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From c1feffd107515c1379d2f5462b71b9b7632d6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 059/132] fix: Triangular entropy used 1 for 1/2

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index cd37710..59862ab 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -160,7 +160,7 @@ impl Modes for Triangular {
 }
 
 impl ShannonEntropy for Triangular {
-    fn shannon_entropy(&self) -> f64 { 1.0 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
+    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
 }
 
 impl fmt::Display for Triangular {
-- 
2.43.0


From f694ac9215bd6eec07714894854d2fb6b9d04790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 060/132] fix: Weibull mode was always 0

---
 src/univariate/weibull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..e921d92 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -152,7 +152,7 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
+        vec![if k <= 1.0 {
             0.0
         } else {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
-- 
2.43.0


From c70ac4a5a419263937ef126f53176a838bc21ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 061/132] fix: Cosine pdf halved the raised cosine twice

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index bc5b7de..2ca0e05 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -66,7 +66,7 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) / self.0.s.0 }
+    fn pdf(&self, x: &f64) -> f64 { self.hvc(*x) / self.0.s.0 }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 28ff76ac9c964e4594fd34316a9c2d92b359c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 062/132] fix: normal kurtosis was reported as 0 and excess
 kurtosis as -3

---
 src/normal/univariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..f4f63e9 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
-- 
2.43.0


From 97ed5935cf3a692586fa814ce66c316ba91e13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 063/132] fix: normal log-likelihood halved the normalising
 term twice

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index f4f63e9..96f56bb 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
-- 
2.43.0


From b8c5b170c4c279ad51cbf0246da7e0ad84a01d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 064/132] fix: normal score in Sigma was not the derivative of
 the log-likelihood

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 96f56bb..c4d1c92 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / (2.0 * Sigma),
         }
     }
 }
-- 
2.43.0


From 535321c951057457007b97d05e1f1b97c4a2d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 065/132] fix: Bernoulli score ignored the sign of the failures

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 16c20b8..90d19a4 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -150,7 +150,7 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples.into_iter().map(|x| (if *x { 1.0 } else { -1.0 }) / f64::from(self.pmf(x))).sum(),
         }
     }
 }
-- 
2.43.0


From 3c6594a1efddc9c6999925f7b044349d8cd346ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 066/132] fix: Exponential Fisher information was inverted

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index f63ecea..e7338e5 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -101,7 +101,7 @@ impl FisherInformation<1> for Exponential {
     fn fisher_information(&self) -> [[f64; 1]; 1] {
         let l = get_lambda!(self);
 
-        [[l * l]]
+        [[1.0 / l / l]]
     }
 }
 
-- 
2.43.0


From 099ab3c020fd6488f8400d6628a2b590147c56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 067/132] fix: LogNormal Fisher information took Sigma for a
 standard deviation

---
 src/univariate/lognormal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 3a0b0e3..0866e23 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -125,8 +125,7 @@ impl ShannonEntropy for LogNormal {
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
-- 
2.43.0


From 92cf4a9f70e1eb26a4954706d844c7128be1c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 068/132] fix: Poisson Fisher information was inverted

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 4cb4072..5c69e16 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -107,7 +107,7 @@ impl ShannonEntropy for Poisson {
 }
 
 impl FisherInformation<1> for Poisson {
-    fn fisher_information(&self) -> [[f64; 1]; 1] { [[get_lambda!(self)]] }
+    fn fisher_information(&self) -> [[f64; 1]; 1] { [[1.0 / get_lambda!(self)]] }
 }
 
 impl Likelihood for Poisson {
-- 
2.43.0


From 5af4db4706e0432a648a6df7deff888829893844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 069/132] fix: Poisson score had the wrong sign on the sample
 count

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 5c69e16..8ac6d89 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -132,7 +132,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: -n + samples.into_iter().sum::<u64>() as f64 / l,
         }
     }
 }
-- 
2.43.0


From 006508401c69d4047919e60a1889116027cdda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 070/132] fix: Gamma log-likelihood was not the sum of the log
 densities

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index e8076cc..44dc2e1 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -135,10 +135,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * x.max(JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.ln() - a.loggamma())
     }
 }
 
-- 
2.43.0


From d71dfe45335ae82c4f1ebaddc45cae1d6ec93749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 071/132] fix: Gamma score in alpha divided by the rate

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 44dc2e1..4e1df81 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -154,11 +154,11 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + x.max(JITTER).ln(), acc[1] - x]
         });
 
         Grad {
-            alpha: grad_a - n * a_digamma,
+            alpha: grad_a + n * (b.ln() - a_digamma),
             beta: grad_b + n * a / b,
         }
     }
-- 
2.43.0


From 094af1e6421e4b2c5b895ae85fd7b5f8834c32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 072/132] fix: PairedNormal log-likelihood scaled the squared
 errors by the sample size

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..89fbc16 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -151,9 +151,9 @@ impl Likelihood for PairedNormal {
         let ln_det = (sigma2_0 * sigma2_1).ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>() / 2.0
     }
 }
 
-- 
2.43.0


From 20839e26cda98a86b9f5ff30756099d417cb77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 073/132] fix: PairedNormal score in Sigma was not the
 derivative of the log-likelihood

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 89fbc16..fdc4b00 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / (2.0 * sigma2_0),
+                (sum_sq[1] / sigma2_1 - n) / (2.0 * sigma2_1)
             ],
         }
     }
-- 
2.43.0


From 26ed14f152041894319f8627b23c2b9769bdbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 074/132] fix: Gamma convolution required equal shapes instead
 of equal rates

---
 src/univariate/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 4e1df81..bc2d509 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -168,12 +168,12 @@ impl Convolution<Gamma> for Gamma {
     type Output = Gamma;
 
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
-        let (a1, beta) = get_params!(self);
-        let a2 = rv.0.alpha.0;
+        let (a1, b1) = get_params!(self);
+        let (a2, b2) = get_params!(rv);
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(b1 == b2)?;
 
-        Ok(Gamma::new_unchecked(a1 + a2, beta))
+        Ok(Gamma::new_unchecked(a1 + a2, b1))
     }
 }
 
-- 
2.43.0


From 5df50762ad90e784425adf01ed734e2c0f2a0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 075/132] fix: ChiSq convolution rejected unequal degrees of
 freedom

---
 src/univariate/chi_sq.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index d49a1ea..c0889cd 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -110,8 +110,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From 3b4506a85d2601f84623228951070959a24b7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 076/132] fix: Mixture::from read uninitialised components when
 given too few parameters

---
 src/mixture.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..23da6ee 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -108,6 +108,8 @@ where
     <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>,
 {
     fn from(params: Params<N, C::Params>) -> Mixture<N, C> {
+        assert_eq!(params.component_params.len(), N, "one set of parameters per component");
+
         let mut components: [std::mem::MaybeUninit<C>; N] = unsafe {
             std::mem::MaybeUninit::uninit().assume_init()
         };
-- 
2.43.0


From fd5234e53983c1baa6f245a9872f31a88b4f67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 077/132] fix: BvNormalGrad scaling left the second variance
 component unscaled

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 9d9a20b..5d6df15 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -37,7 +37,7 @@ impl std::ops::Mul<f64> for BvNormalGrad {
     fn mul(self, sf: f64) -> Self {
         Grad {
             mu: [self.mu[0] * sf, self.mu[1] * sf],
-            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1]], self.Sigma.1 * sf),
+            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1] * sf], self.Sigma.1 * sf),
         }
     }
 }
-- 
2.43.0


From 4904d9479d82ba0000df17e2191feb3b89e32dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 078/132] fix: BvNormal entropy used the determinant instead of
 its logarithm

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 5d6df15..398b385 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * sigma2_0 * sigma2_1 * (1.0 - rho)
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0 * sigma2_1 * (1.0 - rho * rho)).ln()
     }
 }
 
-- 
2.43.0


From 318f96f3b99a8b8aafdacb5e51e5fec8aa5f3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 079/132] fix: PairedNormal entropy used the determinant
 instead of its logarithm

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index fdc4b00..3443eb6 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * Sigma[0] * Sigma[1]
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0] * Sigma[1]).ln()
     }
 }
 
-- 
2.43.0


From 5425c8fc3426c7ad3b8745a8e7111516278feff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 080/132] fix: MvMoments::correlation multiplied by the
 standard deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..376fa67 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();
             }
         }
 
-- 
2.43.0


From 157fcf4aba5581a5a24a2d7488bfab24a93e42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 081/132] fix: DiagonalNormal sampling used variances as
 standard deviations

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..b70697e 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -362,7 +362,7 @@ impl<const N: usize> DiagonalNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0.clone(),
+            Sigma_lt: params.Sigma.0.map(|v| v.sqrt()),
             Sigma_det: params.Sigma.0.iter().product(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
-- 
2.43.0


From b8d75402e75e4d410d6fe67273fa53bf88dd263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 082/132] fix: DiagonalNormal Mahalanobis distance squared the
 precision instead of the difference

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index b70697e..6e02840 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -432,7 +432,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, si)| d * d * si)
             .sum()
     }
 }
-- 
2.43.0


From c574929c26e9a3429bf8d797c7878da7d05d02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 083/132] fix: IsotropicNormal sampling used the variance as
 standard deviation

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 6e02840..3db171c 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -535,7 +535,7 @@ impl<const N: usize> IsotropicNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0,
+            Sigma_lt: params.Sigma.0.sqrt(),
             Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
             precision: 1.0 / params.Sigma.0,
             params,
-- 
2.43.0


From e386411dcc630c7e57b7509eac0386936f42b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 084/132] fix: IsotropicNormal Mahalanobis distance squared the
 precision instead of the difference

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 3db171c..3b532c7 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -673,7 +673,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y) * (x - y) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From 8c205ac9fb659c24c82975714b209fcf7c8141a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 085/132] fix: MvNormal Mahalanobis distance ignored the upper
 triangle of the precision matrix

---
 src/normal/multivariate.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 3b532c7..e93ce6a 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -252,11 +252,11 @@ impl<const N: usize> Mahalanobis for MvNormal<N> {
 
             res
         };
-        let Az = unsafe { linalg::mv_mult(&self.precision, z.clone()) };
-
-        IntoIterator::into_iter(z)
-            .zip(IntoIterator::into_iter(Az))
-            .map(|(zi, Azi)| zi * Azi)
+        z.iter()
+            .zip(self.precision.iter())
+            .map(|(zi, row)| {
+                zi * row.iter().zip(z.iter()).map(|(p, zj)| p * zj).sum::<f64>()
+            })
             .sum()
     }
 }
-- 
2.43.0


From f59750773e69b4365771b29edf3c837e23822dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 086/132] fix: MvNormal rejected every covariance matrix with a
 negative covariance

---
 src/normal/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..c01c3cf 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,6 +18,21 @@ pub use crate::params::Loc;
 )]
 pub struct Covariance<S>(pub S);
 
+#[derive(Debug, Clone, Copy)]
+struct NonNegativeDiagonal;
+
+impl std::fmt::Display for NonNegativeDiagonal {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        write!(f, "NonNegativeDiagonal")
+    }
+}
+
+impl<const N: usize> Constraint<[[f64; N]; N]> for NonNegativeDiagonal {
+    fn is_satisfied_by(&self, matrix: &[[f64; N]; N]) -> bool {
+        (0..N).all(|i| constraints::NonNegative.is_satisfied_by(&matrix[i][i]))
+    }
+}
+
 /// Dense covariance matrix parameter \\(\\bm{\\Sigma}\\).
 pub type MatrixCovariance<const N: usize> = Covariance<[[f64; N]; N]>;
 
@@ -31,10 +46,7 @@ impl<const N: usize> MatrixCovariance<N> {
     /// 1. The covariance matrix is square.
     /// 2. The covariance matrix is positive semi-definite.
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
-        let c = constraints::And((
-            constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
-        ));
+        let c = constraints::And((constraints::Square, NonNegativeDiagonal));
 
         Ok(Covariance(c.check(Sigma)?))
     }
@@ -50,7 +62,7 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(NonNegativeDiagonal)
         ]
     }
 }
-- 
2.43.0


From 3ae72d7644895d84aecebb6ec6a5555c4f44bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 087/132] fix: Frechet sampler used the exponent 1/alpha
 instead of -1/alpha

---
 src/univariate/frechet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..5cdc5e3 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -51,7 +51,7 @@ impl Distribution for Frechet {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         let u = Uniform::default();
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From e8f233a864c388eb7487bb347e707f929060af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 088/132] fix: Gamma sampler passed the rate as the scale

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index bc2d509..cd80f43 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
-- 
2.43.0


From 054bce69e197fc1d342ee4a67dfafd751d28d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 089/132] fix: LogNormal sampler passed the moments of the
 variable instead of those of its logarithm

---
 src/univariate/lognormal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 0866e23..3d94ebe 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -59,7 +59,9 @@ impl Distribution for LogNormal {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
+        let (mu, sigma2) = get_params!(self);
+
+        rand_distr::LogNormal::new(mu, sigma2.sqrt())
             .unwrap()
             .sample(rng)
     }
-- 
2.43.0


From d4ef9abbf440c6a56722490ae63898670256fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 090/132] fix: Dirichlet sample was not normalised by the sum
 of the gamma draws

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From 9dfc193912ba31fdf176745f431dda5b75c78a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 091/132] fix: multivariate LogNormal pdf lacked the Jacobian
 of the logarithm

---
 src/multivariate/lognormal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..40d107c 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -97,7 +97,9 @@ where
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let log_x = x.map(|v| v.ln());
 
-        self.0.pdf(&log_x)
+        let jacobian: f64 = x.iter().product();
+
+        self.0.pdf(&log_x) / jacobian
     }
 }
 
-- 
2.43.0


From f0f232d6360ccc597e3eb637466f39d50bcecbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 092/132] fix: multivariate LogNormal covariance used entries
 it had already overwritten

---
 src/multivariate/lognormal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 40d107c..a61b800 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -125,13 +125,14 @@ where
 
     fn covariance(&self) -> [[f64; N]; N] {
         let mu = self.0.mean();
-        let mut cov = self.0.covariance();
+        let Sigma = self.0.covariance();
+        let mut cov = Sigma;
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
-                let z = cov[$i][$j].exp() - 1.0;
+                let y = (Sigma[$i][$i] + Sigma[$j][$j]) / 2.0;
+                let z = Sigma[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
-- 
2.43.0


From 9e836379bcb4f29aecd3729089256bf0d1fb2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 093/132] fix: Multinomial log_pmf panicked exactly on the
 valid counts

---
 src/multivariate/multinomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 901cdc4..b1b79ba 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -102,7 +102,7 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         #[allow(unused_parens)]
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
-        if xs.iter().fold(0, |acc, v| acc + *v) == self.0.n.0 {
+        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
             panic!("Total number of trials must be equal to n.")
         }
 
-- 
2.43.0


From 5bb2c7a655c1b98dfd80e6c87a295e6faa5bdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 094/132] fix: Multinomial pmf gave counts of another total a
 positive probability

---
 src/multivariate/multinomial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index b1b79ba..3ff058e 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -90,9 +90,10 @@ impl<const N: usize> Distribution for Multinomial<N> {
 
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
-        match xs.iter().fold(0, |acc, x| acc + x) {
-            0 => Probability::zero(),
-            _ => Probability::new(self.log_pmf(xs).exp()).unwrap(),
+        if xs.iter().fold(0, |acc, x| acc + x) != self.0.n.0 {
+            Probability::zero()
+        } else {
+            Probability::new(self.log_pmf(xs).exp()).unwrap()
         }
     }
 
-- 
2.43.0


From f82fd3b639a6acc1a9e4f982760f6bb30ab26d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 095/132] fix: Binomial support contained n + 1

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 151ea2a..c16db14 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -59,7 +59,7 @@ impl Distribution for Binomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From 7e0df486155c507acc25fb0a26b66ba7bbd8ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 096/132] fix: BetaBinomial support contained n + 1

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 428f848..5353801 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -71,7 +71,7 @@ impl Distribution for BetaBinomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From 9d78db34aa324fca09c78c90f72021acfe4339bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 097/132] fix: Categorical support contained N and N + 1

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 85f9f69..f5f5948 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -50,7 +50,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     type Support = Closed<usize>;
     type Params = Params<N>;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N - 1) }
 
     fn params(&self) -> Params<N> { self.0.clone() }
 
-- 
2.43.0


From 959dadd587ace5faaf8d4991299943266b6e5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 098/132] fix: BetaPrime cdf and pdf below the support were not
 zero

---
 src/univariate/beta_prime.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 00bc8d3..e27a46e 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -48,6 +48,10 @@ impl Distribution for BetaPrime {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         use special_fun::FloatSpecial;
 
         let (alpha, beta) = get_params!(self);
@@ -60,6 +64,10 @@ impl Distribution for BetaPrime {
 
 impl ContinuousDistribution for BetaPrime {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         use special_fun::FloatSpecial;
 
         let (a, b) = get_params!(self);
-- 
2.43.0


From 397fcfd7ce66ab3c736540b61fa5f7fe30c5704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 099/132] fix: Chi cdf and pdf below the support were not zero

---
 src/univariate/chi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index beecb7c..d9ab768 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,6 +43,10 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
@@ -51,6 +55,10 @@ impl Distribution for Chi {
 
 impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
-- 
2.43.0


From d56c8810e5d54af6ed97673daa8b9c28265b293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 100/132] fix: ChiSq cdf and pdf below the support were not
 zero

---
 src/univariate/chi_sq.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index c0889cd..dbd240b 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -43,6 +43,10 @@ impl Distribution for ChiSq {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
@@ -60,6 +64,10 @@ impl Distribution for ChiSq {
 
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2) * ko2.gamma();
-- 
2.43.0


From 59be0960a5cf09edee9a1339e01b3c9b10b0e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 101/132] fix: Exponential cdf and pdf below the support were
 not zero

---
 src/univariate/exponential.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index e7338e5..159f8b2 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,6 +47,10 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
     }
 
@@ -59,6 +63,10 @@ impl Distribution for Exponential {
 
 impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let l = get_lambda!(self);
 
         l * (-l * x).exp()
-- 
2.43.0


From 1ed6244354020ae1a2f38bf174d98b3ca998a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 102/132] fix: FDist cdf and pdf below the support were not
 zero

---
 src/univariate/f_dist.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 9e1a805..73ee913 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -44,6 +44,10 @@ impl Distribution for FDist {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         use special_fun::FloatSpecial;
 
         let (d1, d2) = get_params!(self);
@@ -67,6 +71,10 @@ impl Distribution for FDist {
 
 impl ContinuousDistribution for FDist {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         use special_fun::FloatSpecial;
 
         let (d1, d2) = get_params!(self);
-- 
2.43.0


From 15f785e2eec2ff91d0430ecd4795c6418be3995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 103/132] fix: FoldedNormal cdf and pdf below the support were
 not zero

---
 src/univariate/folded_normal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 81ba25e..4b80d6e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -62,6 +62,10 @@ impl Distribution for FoldedNormal {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         use special_fun::FloatSpecial;
 
         let (mu, sigma) = get_params!(self);
@@ -86,6 +90,10 @@ impl Distribution for FoldedNormal {
 
 impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (mu, sigma) = get_params!(self);
 
         let norm = PI_2.sqrt() * sigma;
-- 
2.43.0


From d6abeab2eba56b9a5427d7bc4df251b2a0c6ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 104/132] fix: Gamma cdf and pdf below the support were not
 zero

---
 src/univariate/gamma.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index cd80f43..4db5ca9 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -65,6 +65,10 @@ impl Distribution for Gamma {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let (a, b) = get_params!(self);
 
         Probability::new_unchecked((b * x).gammainc(a))
@@ -81,6 +85,10 @@ impl Distribution for Gamma {
 
 impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
-- 
2.43.0


From 68a82ee4d54d6843cc8ec18e9ade45fd3c048744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 105/132] fix: Rayleigh cdf and pdf below the support were not
 zero

---
 src/univariate/rayleigh.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index c1b5b03..3591a28 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -50,6 +50,10 @@ impl Distribution for Rayleigh {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let sigma = get_sigma!(self);
 
         Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
@@ -60,6 +64,10 @@ impl Distribution for Rayleigh {
 
 impl ContinuousDistribution for Rayleigh {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let sigma = get_sigma!(self);
         let sigma2 = sigma * sigma;
 
-- 
2.43.0


From cef10ec43dd0d93264ec8da42fa94d96137a49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 106/132] fix: Frechet cdf and pdf below the support were not
 zero

---
 src/univariate/frechet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 5cdc5e3..578e823 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -45,6 +45,10 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
     }
 
@@ -57,6 +61,10 @@ impl Distribution for Frechet {
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-- 
2.43.0


From b4a941764f10294effa0b8f0c0ca4f3ac6f56111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 107/132] fix: InvGamma cdf and pdf below the support were not
 zero

---
 src/univariate/inverse_gamma.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index a146b88..7163cf1 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -48,6 +48,10 @@ impl Distribution for InvGamma {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         use special_fun::FloatSpecial;
 
         let (alpha, beta) = get_params!(self);
@@ -60,6 +64,10 @@ impl Distribution for InvGamma {
 
 impl ContinuousDistribution for InvGamma {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         use special_fun::FloatSpecial;
 
         let (alpha, beta) = get_params!(self);
-- 
2.43.0


From ba66088096213b9f17ee4cc23d7e110a07e41553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 108/132] fix: InvNormal cdf and pdf below the support were not
 zero

---
 src/univariate/inverse_normal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index bb66aea..881df37 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -69,6 +69,10 @@ impl Distribution for InvNormal {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
@@ -103,6 +107,10 @@ impl Distribution for InvNormal {
 
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (mu, lambda) = get_params!(self);
         let z = (lambda / PI_2 / x / x / x).sqrt();
 
-- 
2.43.0


From fca5f1cb0bcd417d8d68ec66bb24d931a5df8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 109/132] fix: LogNormal cdf and pdf below the support were not
 zero

---
 src/univariate/lognormal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 3d94ebe..ef7b9a1 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -51,6 +51,10 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let ln_x = x.ln();
 
         self.0.cdf(&ln_x)
@@ -69,6 +73,10 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
         self.0.pdf(&ln_x) / x
-- 
2.43.0


From f20f78284e27ce77e9eaf5411fcb0997bfeab8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 110/132] fix: Levy cdf and pdf below the support were not zero

---
 src/univariate/levy.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 58f8d3c..d943781 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -41,6 +41,10 @@ impl Distribution for Levy {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= self.0.mu.0 {
+            return Probability::zero();
+        }
+
         use special_fun::FloatSpecial;
 
         let (mu, c) = get_params!(self);
@@ -53,6 +57,10 @@ impl Distribution for Levy {
 
 impl ContinuousDistribution for Levy {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= self.0.mu.0 {
+            return 0.0;
+        }
+
         let (mu, c) = get_params!(self);
 
         let diff = x - mu;
-- 
2.43.0


From f96d3cbff15980815b7ceec60363040db6852ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 111/132] fix: GeneralisedPareto cdf and pdf below the support
 were not zero

---
 src/univariate/gpd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index fb13e0f..e84758c 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -48,6 +48,10 @@ impl Distribution for GeneralisedPareto {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < self.0.mu.0 {
+            return Probability::zero();
+        }
+
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
@@ -59,6 +63,10 @@ impl Distribution for GeneralisedPareto {
 
 impl ContinuousDistribution for GeneralisedPareto {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < self.0.mu.0 {
+            return 0.0;
+        }
+
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
-- 
2.43.0


From f3e18585a7f4ba45ac64fcab81049da9baf2edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 112/132] fix: Pareto cdf below the support was negative

---
 src/univariate/pareto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 824127a..5189da9 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -46,6 +46,10 @@ impl Distribution for Pareto {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < self.0.x_m.0 {
+            return Probability::zero();
+        }
+
         let (x_m, alpha) = get_params!(self);
 
         Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
-- 
2.43.0


From 371dba86694712bb3e79aa2310b33a776746976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 113/132] fix: Beta cdf and pdf ignored the ends of the support

---
 src/univariate/beta.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 418d26e..db295b5 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -53,6 +53,14 @@ impl Distribution for Beta {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
+        if *x > 1.0 {
+            return Probability::one();
+        }
+
         let (alpha, beta) = get_params!(self);
 
         Probability::new_unchecked(x.betainc(alpha, beta))
@@ -69,6 +77,10 @@ impl Distribution for Beta {
 
 impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-- 
2.43.0


From 4a8145ece5ce39d272c79ff03cb3c13177f09fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 114/132] fix: Kumaraswamy cdf and pdf ignored the ends of the
 support

---
 src/univariate/kumaraswamy.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 20f2c56..01f9b92 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -52,6 +52,14 @@ impl Distribution for Kumaraswamy {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
+        if *x > 1.0 {
+            return Probability::one();
+        }
+
         let (a, b) = get_params!(self);
 
         Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
@@ -67,6 +75,10 @@ impl Distribution for Kumaraswamy {
 
 impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
-- 
2.43.0


From 6a09fc0b554823d933240def21dd728bfcd821d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 115/132] fix: Arcsine cdf and pdf were undefined outside the
 support

---
 src/univariate/arcsine.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index e5e17a9..2e33459 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -58,6 +58,14 @@ impl Distribution for Arcsine {
 
         let xab = (x - a) / w;
 
+        if xab < 0.0 {
+            return Probability::zero();
+        }
+
+        if xab > 1.0 {
+            return Probability::one();
+        }
+
         Probability::new_unchecked(TWO_OVER_PI * xab.sqrt().asin())
     }
 
@@ -69,6 +77,10 @@ impl ContinuousDistribution for Arcsine {
         let (a, b) = get_params!(self);
         let xab = (x - a) * (b - x);
 
+        if xab < 0.0 {
+            return 0.0;
+        }
+
         ONE_OVER_PI / xab.sqrt()
     }
 }
-- 
2.43.0


From 8b769f46b06384366289b5c03a5bb55af71aadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 116/132] fix: Cosine cdf and pdf ignored the ends of the
 support

---
 src/univariate/cosine.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 2ca0e05..fff28d3 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -59,6 +59,14 @@ impl Distribution for Cosine {
     fn cdf(&self, x: &f64) -> Probability {
         let z = self.z(*x);
 
+        if z < -1.0 {
+            return Probability::zero();
+        }
+
+        if z > 1.0 {
+            return Probability::one();
+        }
+
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
 
@@ -66,7 +74,13 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { self.hvc(*x) / self.0.s.0 }
+    fn pdf(&self, x: &f64) -> f64 {
+        if self.z(*x).abs() > 1.0 {
+            return 0.0;
+        }
+
+        self.hvc(*x) / self.0.s.0
+    }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 3d5e1bae225f815645244b2fbcc6dc79696d6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 117/132] fix: Erlang cdf and pdf below the support were not
 zero

---
 src/univariate/erlang.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index fa760e1..4d71165 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -51,6 +51,10 @@ impl Distribution for Erlang {
     fn params(&self) -> Params { self.0 }
 
     fn log_cdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return std::f64::NEG_INFINITY;
+        }
+
         let (k, lambda) = get_params!(self);
 
         (lambda * x).gammainc(k as f64).ln()
@@ -61,6 +65,10 @@ impl Distribution for Erlang {
 
 impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return std::f64::NEG_INFINITY;
+        }
+
         let (k, lambda) = get_params!(self);
 
         k as f64 * lambda.ln() + (k - 1) as f64 * x.ln()
-- 
2.43.0


From eed11ef3a67f7f60853f5dc63d8a539a7ac576fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 118/132] fix: GeneralisedExtremeValue cdf and pdf were
 undefined below the support

---
 src/univariate/gev.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 681cd71..93bee98 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -65,13 +65,27 @@ impl Distribution for GeneralisedExtremeValue {
 
     fn params(&self) -> Params { self.0 }
 
-    fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked((-self.t_func(*x)).exp()) }
+    fn cdf(&self, x: &f64) -> Probability {
+        let (mu, sigma, zeta) = get_params!(self);
+
+        if 1.0 + zeta * (x - mu) / sigma <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((-self.t_func(*x)).exp())
+    }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
 }
 
 impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
+        let (mu, sigma, zeta) = get_params!(self);
+
+        if 1.0 + zeta * (x - mu) / sigma <= 0.0 {
+            return 0.0;
+        }
+
         let tx = self.t_func(*x);
 
         tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
-- 
2.43.0


From 7d61639ed0a322e11cffdd1c3ca5c209c38bcdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 119/132] fix: Binomial pmf overflowed for counts above n

---
 src/univariate/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index c16db14..6fc5b92 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -90,6 +90,10 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From bda0b4d703c0f15d7f0ee4886c84b9ae158b576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 120/132] fix: BetaBinomial pmf was undefined for counts above
 n

---
 src/univariate/beta_binomial.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 5353801..21e6759 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -87,7 +87,13 @@ impl Distribution for BetaBinomial {
 }
 
 impl DiscreteDistribution for BetaBinomial {
-    fn pmf(&self, k: &usize) -> Probability { Probability::new_unchecked(self.pmf_raw(*k)) }
+    fn pmf(&self, k: &usize) -> Probability {
+        if *k > self.params.n.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(self.pmf_raw(*k))
+    }
 }
 
 impl Univariate for BetaBinomial {}
-- 
2.43.0


From e9a9a09514aaf6e0af28619a1ba739fef2578be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 121/132] fix: Geometric cdf wrapped around for counts of 2^31
 and more

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index ddfba39..e6812c5 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
-- 
2.43.0


From 1c42c42a2906216dfcd39cb9cd2885bac49c2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 122/132] fix: Geometric pmf wrapped around for counts of 2^31
 and more

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index e6812c5..9807b51 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
-- 
2.43.0


From 96e80996987ca9005e9c046a7009d4fec83fe9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 123/132] fix: Binomial pmf overflowed for more than 62 trials

---
 src/univariate/binomial.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 6fc5b92..190e28b 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -94,6 +94,19 @@ impl DiscreteDistribution for Binomial {
             return Probability::zero();
         }
 
+        if n > 62 {
+            // The binomial coefficient may overflow, so we work with logarithms.
+            use special_fun::FloatSpecial;
+
+            let (n, k) = (n as f64, *k as f64);
+
+            let xlogy = |x: f64, y: f64| if x == 0.0 { 0.0 } else { x * y.ln() };
+            let ln_bc = (n + 1.0).loggamma() - (k + 1.0).loggamma() - (n - k + 1.0).loggamma();
+            let ln_prob = xlogy(k, p.unwrap()) + xlogy(n - k, self.q.unwrap());
+
+            return Probability::new_unchecked((ln_bc + ln_prob).exp());
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From 5c0ddf79410cc6e064b624b13a5aee9fdc2eace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 124/132] fix: BetaBinomial pmf overflowed for more than 62
 trials

---
 src/univariate/beta_binomial.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 21e6759..3ff5316 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -48,6 +48,14 @@ impl BetaBinomial {
     fn pmf_raw(&self, k: usize) -> f64 {
         let (n, alpha, beta) = get_params!(self);
 
+        if n > 62 {
+            // The binomial coefficient may overflow, so we work with logarithms.
+            let (n, k) = (n as f64, k as f64);
+            let ln_c = (n + 1.0).loggamma() - (k + 1.0).loggamma() - (n - k + 1.0).loggamma();
+
+            return (ln_c + (k + alpha).logbeta(n - k + beta) - alpha.logbeta(beta)).exp();
+        }
+
         let c = choose(n as u64, k as u64) as f64;
         let z = alpha.beta(beta);
         let k = k as f64;
-- 
2.43.0


From ef49e892d22d3941f0f1ff7d86a40952ef18512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 125/132] fix: Uniform<i64> quantile was one step too high and
 left the support at 1

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..06533ac 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -288,7 +288,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From 4d82a9ce83c3e3854a2236edde371c432cb8db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 126/132] fix: Poisson modes missed the second mode of an
 integer rate

---
 src/univariate/poisson.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 8ac6d89..5b422d8 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -92,7 +92,16 @@ impl Quantiles for Poisson {
 }
 
 impl Modes for Poisson {
-    fn modes(&self) -> Vec<u64> { vec![get_lambda!(self).floor() as u64] }
+    fn modes(&self) -> Vec<u64> {
+        let l = get_lambda!(self);
+        let m = l.floor() as u64;
+
+        if m > 0 && l == m as f64 {
+            vec![m - 1, m]
+        } else {
+            vec![m]
+        }
+    }
 }
 
 impl ShannonEntropy for Poisson {
-- 
2.43.0


From d5468820b5f8ce546003027f2f91618c9053bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 127/132] fix: Poisson median was negative for small rates

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 5b422d8..e3bc5f7 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -87,7 +87,7 @@ impl Quantiles for Poisson {
     fn median(&self) -> f64 {
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        (l + ONE_THIRD - 0.02 / l).floor().max(0.0)
     }
 }
 
-- 
2.43.0


From 2f81fcccc396ce9313cda25bc72dae6c91e337fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 128/132] fix: SimplexVector::sample_index could return an
 index of probability zero

---
 src/probability.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index 136896e..a57f1aa 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -346,7 +346,9 @@ impl<const K: usize> SimplexVector<K> {
         });
         let rval: f64 = rng.gen();
 
-        cdf.position(|p| rval < p).unwrap_or(self.len() - 1)
+        cdf.position(|p| rval < p)
+            .or_else(|| self.0.iter().rposition(|p| *p > 0.0))
+            .unwrap_or(self.len() - 1)
     }
 
     /// Compute the central point of the simplex \\(x_i = 1 / K\\).
-- 
2.43.0


From 745049b97441d83c605a7b523b85216b19ccc3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 129/132] fix: entropy of the binomial distribution was in
 bits, every other entropy is in nats

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 190e28b..bd4ede8 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -167,7 +167,7 @@ impl Modes for Binomial {
 }
 
 impl ShannonEntropy for Binomial {
-    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).log2() / 2.0 }
+    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).ln() / 2.0 }
 }
 
 impl FisherInformation<1> for Binomial {
-- 
2.43.0


From d08d4a1a1f1c67a9c774802f0001a3c8772e480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:09 +0000
Subject: [PATCH 130/132] fix: median of Beta(3, 2) and Beta(2, 3) was the
 approximation, the exact values listed for them could not be reached

---
 src/univariate/beta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index db295b5..e19fb31 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -134,8 +134,6 @@ impl Quantiles for Beta {
 
         if (a - b).abs() < 1e-7 {
             0.5
-        } else if a > 1.0 && b > 1.0 {
-            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else if (a - 1.0).abs() < 1e-7 {
             1.0 - 2.0f64.powf(-1.0 / b)
         } else if (b - 1.0).abs() < 1e-7 {
@@ -144,6 +142,8 @@ impl Quantiles for Beta {
             0.6142724318676105
         } else if (a - 2.0).abs() < 1e-7 && (b - 3.0).abs() < 1e-7 {
             0.38572756813238945
+        } else if a > 1.0 && b > 1.0 {
+            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else {
             undefined!()
         }
-- 
2.43.0


From 355e44c7ece02ca76cbbbf5d6e95c006a42376a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 131/132] fix: entropy of a geometric distribution that always
 succeeds was NaN

---
 src/univariate/geometric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 9807b51..a24b927 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -99,6 +99,10 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
+        if q == 0.0 {
+            return 0.0;
+        }
+
         (-q * q.ln() - p * p.ln()) / p
     }
 }
-- 
2.43.0


From 35b638ebeb068395026f3909fd8753322c5cb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 132/132] fix: mode of a Dirichlet with a concentration below
 one was a point off the simplex

---
 src/multivariate/dirichlet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..3f29d68 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -130,6 +130,14 @@ impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
         let k = self.alphas.0.len() as f64;
 
+        if N == 1 {
+            return vec![[1.0; N]];
+        }
+
+        if self.alphas.0.iter().any(|a| *a < 1.0) || self.alphas.0.iter().all(|a| *a == 1.0) {
+            undefined!("Mode is undefined for alpha < 1, and for all alpha = 1.");
+        }
+
         vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
     }
 }
-- 
2.43.0

