From 1180934ff1455c68bd4807bcfafec84eee946144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/38] fix: gammp/gammq return NaN for a >= 100 below the mean

gammpapprox took ln(xu - x), which is NaN when the integration bound xu lies
below x (x <= a - 1), and treated the integral as the upper tail on both sides.
---
 src/gamma.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 62a4dc9..b3a216a 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -399,7 +399,7 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
 
     // Compute final answer with overflow/underflow protection
     let log_scale = a1 * (lna1 - 1f64) - gln;
-    let log_ans = log_max + sum.ln() + (xu - x).ln() + log_scale;
+    let log_ans = log_max + sum.ln() + (xu - x).abs().ln() + log_scale;
 
     let ans = if log_ans > 700.0 {
         f64::INFINITY
@@ -409,13 +409,18 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
         log_ans.exp()
     };
 
+    // The integral runs from x to xu: it is the upper tail Q if xu > x and the lower tail P otherwise
+    let complement = match psig {
+        IncGamma::P => xu > x,
+        IncGamma::Q => xu <= x,
+    };
+
     // Clamp results to [0, 1] and handle the P vs Q case
-    match psig {
-        IncGamma::P => {
-            let result = 1f64 - ans;
-            result.clamp(0.0, 1.0)
-        }
-        IncGamma::Q => ans.clamp(0.0, 1.0),
+    if complement {
+        let result = 1f64 - ans;
+        result.clamp(0.0, 1.0)
+    } else {
+        ans.clamp(0.0, 1.0)
     }
 }
 
-- 
2.43.0


From 2ab83576a127dc107b87573d7ca920c93bd60cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/38] fix: ln_gamma loses the digits of a small argument

z - 1 rounds a small z away (ln_gamma(1e-17) was inf, ln_gamma(1e-15) off in the
second digit); evaluate the Lanczos sum in terms of z.
---
 src/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index b3a216a..371e595 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -31,14 +31,14 @@ const N: usize = 7;
 ///
 /// The natural logarithm of the gamma function at `z`
 pub fn ln_gamma(z: f64) -> f64 {
-    let z = z - 1f64;
-    let base = z + G + 0.5;
+    // The Lanczos sum in terms of z itself: going through z - 1 would lose all digits of a small z.
+    let base = z + G - 0.5;
     let mut s = 0f64;
     for (i, &coeff) in LG5N7.iter().enumerate().skip(1) {
-        s += coeff / (z + i as f64);
+        s += coeff / (z + (i as f64 - 1f64));
     }
     s += LG5N7[0];
-    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z + 0.5)
+    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z - 0.5)
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From f74e7d8dda33ee11e67dda737af5b2cfba0a8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 03/38] fix: gammp/gammq are wrong for small a and x < a * EPS

P(a,x) does not vanish there: P(0.01, 1e-19) is 0.645. The series handles
these arguments.
---
 src/gamma.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 371e595..726f625 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -194,11 +194,6 @@ pub fn gammp(a: f64, x: f64) -> f64 {
         return 0f64;
     }
 
-    // For very small x relative to a, use series (always more accurate)
-    if x < a * EPS {
-        return 0f64;
-    }
-
     // For very large x relative to a, result approaches 1
     if x > a + 20.0 * (a.sqrt() + 1.0) {
         return 1f64;
@@ -251,11 +246,6 @@ pub fn gammq(a: f64, x: f64) -> f64 {
         return 1f64;
     }
 
-    // For very small x relative to a, result approaches 1
-    if x < a * EPS {
-        return 1f64;
-    }
-
     // For very large x relative to a, result approaches 0
     if x > a + 20.0 * (a.sqrt() + 1.0) {
         return 0f64;
-- 
2.43.0


From 5bb4dd3459291d285590d9d666117b7170cc0480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/38] fix: gammp exceeds 1 by rounding in the series

---
 src/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 726f625..b41c836 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -202,14 +202,14 @@ pub fn gammp(a: f64, x: f64) -> f64 {
     if (a as usize) >= ASWITCH {
         // For very small x relative to a, use series instead of quadrature
         if x < 0.2 * a {
-            gser(a, x)
+            gser(a, x).min(1.0)
         } else {
             // Quadrature for large a
             gammpapprox(a, x, IncGamma::P)
         }
     } else if x < a + 1f64 {
         // Series representation - more accurate for x < a+1
-        gser(a, x)
+        gser(a, x).min(1.0)
     } else {
         // Continued fraction representation
         // Use complementary function to avoid catastrophic cancellation
-- 
2.43.0


From 7c44a2948fbbce342ac5d3aa78c72bcab95b25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 05/38] fix: invgammp stops early for small a and panics for
 tiny p

The iteration stopped at an absolute step of EPS, so an inverse below EPS kept
its initial guess, and the 1e-3 floor of the guess left large a in a region
where P and its derivative underflow (NaN, then the assertion in gammp).
---
 src/gamma.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index b41c836..4b260e0 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -456,7 +456,9 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if p < 0.5 {
             x = -x;
         }
-        1e-3_f64.max(a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3))
+        // P(a,x) <= x^a / Gamma(a+1) bounds x from below
+        let bound = ((p.ln() + gln + a.ln()) / a).exp();
+        bound.max(a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3))
     } else {
         t = 1f64 - a * (0.253 + a * 0.12);
         if p < t {
@@ -484,7 +486,7 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if x <= 0f64 {
             x = 0.5 * (x + t);
         }
-        if t.abs() < (x * EPS).max(EPS) {
+        if t.abs() < x * EPS {
             break;
         }
     }
-- 
2.43.0


From 586411f52d7062a86331b75883cd78a6969105b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/38] fix: betai picks the wrong side of the continued
 fraction

The switch is at (a+1)/(a+b+2); a + b * 2 was a typo that lost all accuracy in between.
---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index aec936a..a1bdb6c 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -70,7 +70,7 @@ pub fn betai(a: f64, b: f64, x: f64) -> f64 {
         return betaiapprox(a, b, x);
     }
     let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();
-    if x < (a + 1f64) / (a + b * 2f64) {
+    if x < (a + 1f64) / (a + b + 2f64) {
         bt * betacf(a, b, x) / a
     } else {
         1f64 - bt * betacf(b, a, 1f64 - x) / b
-- 
2.43.0


From f81fe140bba528739cf715f3a6d05ff5992a6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 07/38] fix: betai is wrong for a, b > 3000

betaiapprox misplaced a parenthesis (b1 must multiply the whole difference of
logs) and told the tails apart by the sign of a sum that underflows to 0.
---
 src/beta.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/beta.rs b/src/beta.rs
index a1bdb6c..20717fd 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -144,12 +144,13 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
     let mut sum = 0f64;
     for j in 0..18 {
         t = x + (xu - x) * Y[j];
-        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * (1f64 - t).ln() - lnmuc).exp();
+        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * ((1f64 - t).ln() - lnmuc)).exp();
     }
     let ans = sum
         * (xu - x)
         * (a1 * lnmu - ln_gamma(a) + b1 * lnmuc - ln_gamma(b) + ln_gamma(a + b)).exp();
-    if ans > 0f64 {
+    // The integral runs from x to xu: the upper tail if xu > x, minus the lower tail otherwise
+    if xu > x {
         1f64 - ans
     } else {
         -ans
-- 
2.43.0


From a95bd247695d197b349427662991f93966ea5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 08/38] fix: invbetai panics on a tiny p and gives up far from
 the root

Where the density underflowed the update was 0/0 and betai then asserted on the
NaN; a guess that rounded to 1 was returned as the answer; ten iterations were
too few for skewed parameters.
---
 src/beta.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 20717fd..ad0cec7 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -198,6 +198,11 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
             - (1f64 / (2f64 * b - 1f64) - 1f64 / (2f64 * a - 1f64))
                 * (al + 5f64 / 6f64 - 2f64 / (3f64 * h));
         x = a / (a + b * (2f64 * w).exp());
+        if p < 0.5 {
+            // I_x(a,b) <= x^a / (a B(a,b)) bounds x from below
+            let lnbeta = ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b);
+            x = x.max(((p.ln() + a.ln() + lnbeta) / a).exp());
+        }
     } else {
         let lna = (a / (a + b)).ln();
         let lnb = (b / (a + b)).ln();
@@ -210,14 +215,28 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
             1f64 - (b * w * (1f64 - p)).powf(1f64 / b)
         };
     }
+    // A guess that rounds to 1 would end the iteration before it starts
+    x = x.min(1f64 - EPS / 2f64);
     let afac = -ln_gamma(a) - ln_gamma(b) + ln_gamma(a + b);
-    for j in 0..10 {
+    let mut lo = 0f64;
+    let mut hi = 1f64;
+    for j in 0..40 {
         if x == 0f64 || x == 1f64 {
             return x;
         }
         let err = betai(a, b, x) - p;
+        if err < 0f64 {
+            lo = x;
+        } else {
+            hi = x;
+        }
         t = (a1 * x.ln() + b1 * (1f64 - x).ln() + afac).exp();
         u = err / t;
+        if !u.is_finite() {
+            // The density underflows at x, bisect
+            x = 0.5 * (lo + hi);
+            continue;
+        }
         t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - b1 / (1f64 - x))));
         x -= t;
         if x <= 0f64 {
-- 
2.43.0


From 8bad9c1fb3ab33ca69099877ba520060e1f0d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 09/38] fix: dawson is wrong for |x| >= 0.2

The sum advanced d1, d2 and e1 before using them, which pairs each coefficient
with the wrong term: dawson(1) was -0.112 instead of 0.538.
---
 src/dawson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dawson.rs b/src/dawson.rs
index 0aa913c..80a5d14 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -40,11 +40,11 @@ pub fn dawson(x: f64) -> f64 {
 
         for i in 0..NMAX {
             let cval = f64::exp(-((2. * i as f64 + 1.) * h).powi(2));
+            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
+
             d1 += 2.;
             d2 -= 2.;
             e1 *= e2;
-
-            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
         }
 
         ans = (1. / PI.sqrt()) * sign(f64::exp(-xp * xp), x) * sum;
-- 
2.43.0


From b60fda80edda75a7f9d9b310d56f8b4ce67b012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 10/38] fix: dawson overflows for huge arguments

From about 1e16 on n0 * h no longer resolves x, and n0 itself overflowed (a
panic in debug builds, also reached through faddeeva near the real axis).
---
 src/dawson.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dawson.rs b/src/dawson.rs
index 80a5d14..df63520 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -28,6 +28,9 @@ pub fn dawson(x: f64) -> f64 {
     if x.abs() < 0.2 {
         x2 = x * x;
         ans = x * (1.0 - a1 * x2 * (1.0 - a2 * x2 * (1.0 - a3 * x2)));
+    } else if x.abs() > 1e4 {
+        // The start of the asymptotic series: the sum below has no integer n0 for a huge x.
+        ans = 0.5 / x * (1.0 + 0.5 / (x * x));
     } else {
         xx = x.abs();
         n0 = 2 * (0.5 * xx / h + 0.5) as u64; // Simply truncates the decimal places, as in NR.
-- 
2.43.0


From df9634edcace31488e56a9ca0d9f2b54ee5d7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 11/38] fix: faddeeva has a wrong imaginary part far up the
 imaginary axis

1/sqrt(pi) - y * w cancels completely for large y, and x multiplies the rounding
error: faddeeva(-2.026e219, 3.905e274) had an imaginary part of -4.5e203, where
|w| is 1.4e-275.
---
 src/faddeeva.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index d304b97..a2ad324 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -67,7 +67,8 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /* but either of the components may be off by orders of magnitude.  */
     /* **************************************************************** */
 
-    if xabs < 1e-8 * yabs {
+    // For large y the difference below cancels; the expansion for |z| -> infinity has no such problem.
+    if xabs < 1e-8 * yabs && (y < 150. || xabs == 0.) {
         let wr = erfcx(y);
         if xabs == 0. {
             return (wr, 0.);
-- 
2.43.0


From b2eafe72a2a4f9dea4e92b968fc7508d109fe5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 12/38] fix: faddeeva is NaN for huge arguments in the lower
 half plane

---
 src/faddeeva.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index a2ad324..970efdb 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -217,7 +217,12 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
         if y < 0. {
             // Use w(z) = 2.0*exp(-z*z) - w(-z),
             // but be careful of overflow in exp(-z*z) = exp(-(xs*xs-ya*ya) -2*i*xs*ya)
-            res = 2.0 * c64::new((yabs - xs) * (xs + yabs), 2. * xs * y).exp() - res;
+            let mzz = (yabs - xs) * (xs + yabs);
+            if mzz < -750. {
+                // exp(-z*z) vanishes, whatever its phase (which may have overflowed)
+                return (-res.re, -res.im);
+            }
+            res = 2.0 * c64::new(mzz, 2. * xs * y).exp() - res;
             return (res.re, res.im);
         } else {
             return (res.re, res.im);
-- 
2.43.0


From ca92a9da50dedd12045459922fae6733865182a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 13/38] fix: faddeeva is NaN or inaccurate far along the real
 axis

x * y * e2 is inf * 0 for huge arguments, e.g. faddeeva(-1.7e166, -4.4e155), and
x * wi - 1/sqrt(pi) cancels, so the real part had no correct digit from |x| > 3e3.
---
 src/faddeeva.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index 970efdb..32b932e 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -48,7 +48,8 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /* but either of the components may be off by orders of magnitude.  */
     /* **************************************************************** */
 
-    if yabs < 1e-8 * xabs {
+    // For large x the difference below cancels; the expansion for |z| -> infinity has no such problem.
+    if yabs < 1e-8 * xabs && (xabs < 150. || yabs == 0.) {
         let wi = im_w_of_x(x);
         let e2 = if xabs > 27. {
             0.
-- 
2.43.0


From a7a47b494dcb33ac2f7022be3a58ea542f83d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 14/38] fix: erf, erfc, inverf and inverfc panic on NaN

---
 src/error.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index b3470d9..1f6a5df 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -320,6 +320,9 @@ fn erfccheb(z: f64) -> f64 {
     let mut d = 0f64;
     let mut dd = 0f64;
 
+    if z.is_nan() {
+        return z;
+    }
     assert!(z >= 0f64, "erfccheb requires nonnegative argument");
     let t = 2f64 / (2f64 + z);
     let ty = 4f64 * t - 2f64;
-- 
2.43.0


From b50f8aef2fbc3dacf938832a233c2f42c810a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 15/38] fix: frexp is wrong for subnormal numbers, infinities
 and NaN

---
 src/utils.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index b8b90c7..1916afe 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -33,6 +33,9 @@ fn rising_factorial(z: f64, n: usize) -> f64 {
     r
 }
 
+/// 2^54, scales every subnormal number into the normal range
+const TWO_POW_54: f64 = 18_014_398_509_481_984.0;
+
 /// Pure Rust implementation of frexp
 pub fn frexp(x: f64) -> (f64, i32) {
     // If the input is zero, return (0.0, 0)
@@ -40,6 +43,17 @@ pub fn frexp(x: f64) -> (f64, i32) {
         return (0.0, 0);
     }
 
+    // Infinities and NaN have no mantissa and exponent, return them unchanged as C does
+    if !x.is_finite() {
+        return (x, 0);
+    }
+
+    // Subnormal numbers have no implicit leading bit, scale them into the normal range first
+    if x.abs() < f64::MIN_POSITIVE {
+        let (mantissa, exponent) = frexp(x * TWO_POW_54);
+        return (mantissa, exponent - 54);
+    }
+
     // Convert the input to its IEEE 754 binary representation
     let bits = x.to_bits();
 
-- 
2.43.0


From d6993db665af848ff5b0b4358661915f08551667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 16/38] fix: ldexp returns infinity on underflow

A result too small for the exponent range became +-inf instead of rounding to a
subnormal number or zero, an overflow into exponent 0x7ff became NaN, and
subnormal numbers, infinities, NaN and huge exponents were mangled. In and Jn
rescale through it and returned inf for e.g. Jn(55, 5e-8).
---
 src/utils.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 1916afe..4d84e88 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -78,8 +78,8 @@ pub fn frexp(x: f64) -> (f64, i32) {
 
 /// Pure Rust implementation of ldexp
 pub fn ldexp(x: f64, exp: i32) -> f64 {
-    // If the input is zero or the exponent is zero, return the input unchanged
-    if x == 0.0 || exp == 0 {
+    // If the input is zero or not finite, or the exponent is zero, return the input unchanged
+    if x == 0.0 || exp == 0 || !x.is_finite() {
         return x;
     }
 
@@ -91,16 +91,27 @@ pub fn ldexp(x: f64, exp: i32) -> f64 {
     let exponent = ((bits >> 52) & 0x7ff) as i32;
 
     // Calculate the new exponent by adding the input exponent to the existing exponent
-    let new_exponent = exponent + exp;
+    let new_exponent = exponent.saturating_add(exp);
+
+    // Scale subnormal numbers into the normal range first
+    if exponent == 0 {
+        return ldexp(x * TWO_POW_54, exp.saturating_sub(54));
+    }
 
     // Check if the new exponent is within the valid range for IEEE 754 format
-    if !(0..=0x7ff).contains(&new_exponent) {
-        // If the exponent is out of range, return infinity or zero depending on the input sign
+    if new_exponent >= 0x7ff {
+        // If the exponent is too large, return infinity depending on the input sign
         return if (bits >> 63) != 0 {
             f64::NEG_INFINITY
         } else {
             f64::INFINITY
         };
+    } else if new_exponent <= -54 {
+        // The result rounds to zero
+        return 0f64.copysign(x);
+    } else if new_exponent <= 0 {
+        // The result is subnormal: let the last of two scalings round it
+        return ldexp(x, exp + 54) / TWO_POW_54;
     }
 
     // Combine the new exponent with the mantissa and sign bits to create the result
-- 
2.43.0


From 7a8fd5dcce228ea36f167e0162aa1bcc94837a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 17/38] fix: In(1, x) vanishes for x <= -15

i1 scaled by exp(x) instead of exp(|x|).
---
 src/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 4d91682..2bb3e0d 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -1007,7 +1007,7 @@ fn i1(x: f64) -> f64 {
         x * poly(y, &I1P, 13) / poly(225f64 - y, &I1Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        let ans = x.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
+        let ans = ax.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
         if x < 0f64 {
             -ans
         } else {
-- 
2.43.0


From 2af2b31d2b137727d87947019cbcd0084471e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 18/38] fix: In loses all accuracy for a large argument

Miller's recurrence started at an order that ignores x: In(2, 100) had an error
of 1e-8 and In(2, 500) of several percent.
---
 src/bessel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 2bb3e0d..243813e 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -154,7 +154,9 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
-        for j in (1..2 * (n + (acc * n_f64).sqrt() as u32)).rev() {
+        // Start high enough for both a large order and a large argument (i0 overflows long before the cap)
+        let start = n_f64.max(x.abs().min(1e4));
+        for j in (1..2 * (n + (acc * start).sqrt() as u32)).rev() {
             let bim = j as f64 * tox * bi + bip;
             bip = bi;
             bi = bim;
-- 
2.43.0


From b329d00160d0e6fda8802f156a4cde7fa8814a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 19/38] fix: Yn returns NaN where the recurrence overflows

---
 src/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 243813e..3f1714a 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -117,6 +117,10 @@ pub fn Yn(n: u32, x: f64) -> f64 {
             let byp = j as f64 * tox * by - bym;
             bym = by;
             by = byp;
+            if by.is_infinite() {
+                // All higher orders overflow as well, going on would give inf - inf
+                break;
+            }
         }
         by
     }
-- 
2.43.0


From 3a8583055748a936e54006ce9996fa703232239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:08 +0000
Subject: [PATCH 20/38] fix: besseljy and besselik return NaN where a
 recurrence overflows

For a large order and a small argument the downward recurrence of J and I or the
upward recurrence of Y and K leaves the range of f64: rescale the former, and
avoid inf - inf in the latter.
---
 src/bessel.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 3f1714a..3075a4f 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -240,6 +240,7 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     const MAXIT: usize = 10000;
     const EPS: f64 = f64::EPSILON;
     const FPMIN: f64 = f64::MIN_POSITIVE / EPS;
+    const BIG: f64 = 1e250;
     const XMIN: f64 = 2.0;
     const PI: f64 = std::f64::consts::PI;
 
@@ -291,8 +292,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let mut rjl = isign as f64 * FPMIN;
     let mut rjpl = h * rjl;
-    let rjl1 = rjl;
-    let rjp1 = rjpl;
+    let mut rjl1 = rjl;
+    let mut rjp1 = rjpl;
 
     let rjmu: f64;
     let mut rymu: f64;
@@ -305,6 +306,13 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         fact -= xi;
         rjpl = fact * rjtemp - rjl;
         rjl = rjtemp;
+        if rjl.abs() + rjpl.abs() > BIG {
+            // Scale everything back before the recurrence overflows
+            rjl /= BIG;
+            rjpl /= BIG;
+            rjl1 /= BIG;
+            rjp1 /= BIG;
+        }
     }
     if rjl == 0f64 {
         rjl = EPS;
@@ -423,13 +431,23 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let fact = rjmu / rjl;
     let jo = rjl1 * fact;
     let jpo = rjp1 * fact;
+    let mut rymm = 0f64;
     for i in 1..=nl {
         let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
+        rymm = rymu;
         rymu = ry1;
         ry1 = rytemp;
+        if rymu.is_infinite() {
+            // All higher orders overflow as well, going on would give inf - inf
+            return (jo, rymu, jpo, -rymu);
+        }
     }
     let yo = rymu;
-    let ypo = nu * xi * rymu - ry1;
+    let ypo = if ry1.is_infinite() {
+        rymm - nu * xi * rymu
+    } else {
+        nu * xi * rymu - ry1
+    };
 
     (jo, yo, jpo, ypo)
 }
@@ -585,6 +603,7 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     const MAXIT: usize = 10000;
     const EPS: f64 = f64::EPSILON;
     const FPMIN: f64 = f64::MIN_POSITIVE / EPS;
+    const BIG: f64 = 1e250;
     const XMIN: f64 = 2.0;
     const PI: f64 = std::f64::consts::PI;
 
@@ -620,14 +639,21 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let mut ril = FPMIN;
     let mut ripl = h * ril;
-    let ril1 = ril;
-    let rip1 = ripl;
+    let mut ril1 = ril;
+    let mut rip1 = ripl;
     let mut fact = nu * xi;
     for _ in (0..nl).rev() {
         let ritemp = fact * ril + ripl;
         fact -= xi;
         ripl = fact * ritemp + ril;
         ril = ritemp;
+        if ril + ripl > BIG {
+            // Scale everything back before the recurrence overflows
+            ril /= BIG;
+            ripl /= BIG;
+            ril1 /= BIG;
+            rip1 /= BIG;
+        }
     }
     let f = ripl / ril;
 
@@ -721,14 +747,20 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let rimu = xi / (f * rkmu - rkmup);
     let io = (rimu * ril1) / ril;
     let ipo = (rimu * rip1) / ril;
+    let mut rkmm = 0f64;
     for i in 1..=nl {
         let i_f64 = i as f64;
         let rktemp = (xmu + i_f64) * xi2 * rk1 + rkmu;
+        rkmm = rkmu;
         rkmu = rk1;
         rk1 = rktemp;
     }
     let ko = rkmu;
-    let kpo = nu * xi * rkmu - rk1;
+    let kpo = if rk1.is_infinite() {
+        -rkmm - nu * xi * rkmu
+    } else {
+        nu * xi * rkmu - rk1
+    };
 
     (io, ko, ipo, kpo)
 }
-- 
2.43.0


From 44094b142d48d2982c267e6a093067c82c5f304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 21/38] fix: besseljy and besselik lose J and I for small x

The Wronskian was taken at order xmu, where for xmu < 0 it cancels like
x^(2 |xmu|): I_26.5(2e-6) was good to 8 digits only, I_0.5(1e-15) to none.
---
 src/bessel.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 3075a4f..c574303 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -448,6 +448,11 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     } else {
         nu * xi * rymu - ry1
     };
+    if x < XMIN && nl > 0 {
+        // The Wronskian at order nu: at order xmu < 0 it cancels for small x
+        let jo = w * x / (x * rymm - (nu + x * h) * yo);
+        return (jo, yo, h * jo, ypo);
+    }
 
     (jo, yo, jpo, ypo)
 }
@@ -761,6 +766,11 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     } else {
         nu * xi * rkmu - rk1
     };
+    if x < XMIN && nl > 0 {
+        // The Wronskian at order nu: at order xmu < 0 it cancels for small x
+        let io = 1.0 / (x * rkmm + (nu + x * h) * ko);
+        return (io, ko, h * io, kpo);
+    }
 
     (io, ko, ipo, kpo)
 }
-- 
2.43.0


From 9e7e5a5bec5b2f0dfc905bef39e361c0a46d8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 22/38] fix: invgammp panics for p < 1e-300 and large a

---
 src/gamma.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gamma.rs b/src/gamma.rs
index 4b260e0..9028fbb 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -480,6 +480,10 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
             (-x + a1 * x.ln() - gln).exp()
         };
         let u = err / t;
+        if !u.is_finite() {
+            // The density underflows at x, it cannot be refined any further
+            break;
+        }
         // Halley's method
         t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - 1f64)));
         x -= t;
-- 
2.43.0


From 0f4d744b7e4fbe82cb129c437f1549196d3ee85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 23/38] fix: gamma underflows to 0 next to the poles below -171

---
 src/gamma.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 9028fbb..2e85188 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -102,21 +102,25 @@ pub fn gamma(mut z: f64) -> f64 {
         }
         f
     } else if z < 2.5 {
-        let mut f = 1.0;
         // Increment z by 1 until larger than 2.5.
-        while z <= 2.5 {
-            f *= z;
+        // The factors are multiplied starting with the last one:
+        // close to a pole it is the small one that keeps `f` from overflowing too early.
+        let mut f = 1.0;
+        let mut steps = (2.5 - z).floor() + 1.0;
+        let shifted = z + steps;
+        while steps > 0.0 {
+            steps -= 1.0;
+            f *= z + steps;
             if f.is_infinite() {
                 // There is no point in continuing the calculation,
-                // as `f` will remain infinite when multiplied by any finite number.
-                // (except zero, but that can only happen if z is an integer, which we have handled above.)
+                // as `f` will remain infinite when multiplied by any of the remaining factors.
                 // The final result will thus be `g` / inf,
                 // which underflows to 0 since `g` (defined below) is always finite.
                 // This early return stops the loop from running too long for very large negative inputs.
                 return 0.0;
             }
-            z += 1.0;
         }
+        z = shifted;
         f.recip()
     } else {
         1.0
-- 
2.43.0


From cf658130057d8661e134767a718b9c5f4696e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 24/38] fix: inverfc returns NaN for the smallest subnormal
 number

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 1f6a5df..49ca8a0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -75,7 +75,8 @@ pub fn inverfc(p: f64) -> f64 {
     }
 
     let pp = if p < 1f64 { p } else { 2f64 - p };
-    let t = (-2f64 * (pp / 2f64).ln()).sqrt();
+    // pp / 2 underflows to 0 for the smallest subnormal number
+    let t = (-2f64 * (pp.ln() - std::f64::consts::LN_2)).sqrt();
     let mut x = -std::f64::consts::FRAC_1_SQRT_2
         * ((2.30753 + t * 0.27061) / (1f64 + t * (0.99229 + t * 0.04481)) - t);
     for _j in 0..2 {
-- 
2.43.0


From d5ca044bcc81f859abfc0dd2cc66fece1103c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 25/38] fix: In underflows to 0 where I_n / I_0 is below the
 double range

---
 src/bessel.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index c574303..b8ee586 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -158,6 +158,8 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
+        // Number of times the answer has to be scaled back: it may underflow before i0(x) is applied
+        let mut scaled = 0i32;
         // Start high enough for both a large order and a large argument (i0 overflows long before the cap)
         let start = n_f64.max(x.abs().min(1e4));
         for j in (1..2 * (n + (acc * start).sqrt() as u32)).rev() {
@@ -168,13 +170,16 @@ pub fn In(n: u32, x: f64) -> f64 {
             if k > iexp {
                 bi = ldexp(bi, -iexp);
                 bip = ldexp(bip, -iexp);
-                ans = ldexp(ans, -iexp);
+                scaled += 1;
             }
             if j == n {
                 ans = bip;
+                scaled = 0;
             }
         }
-        ans *= i0(x) / bi;
+        let (ratio, k) = frexp(ans / bi);
+        let (i0x, l) = frexp(i0(x));
+        ans = ldexp(ratio * i0x, k + l - scaled * iexp);
         if x < 0f64 && n % 2 == 1 {
             -ans
         } else {
-- 
2.43.0


From 094414613a1366991f519bc02ee630dfbf88341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 26/38] fix: Jn and In return NaN for a tiny argument and a
 large order

---
 src/bessel.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index b8ee586..9445f24 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -35,8 +35,13 @@ pub fn Jn(n: u32, x: f64) -> f64 {
         j0(x)
     } else if n == 1 {
         j1(x)
-    } else if x.powi(2) <= 8.0 * f64::MIN_POSITIVE {
-        0f64
+    } else if x.abs() < 1e-120 {
+        // The leading term x^n / (2^n n!), the recurrence would overflow
+        if n == 2 {
+            x.powi(2) / 8.0
+        } else {
+            0f64
+        }
     } else {
         let mut ans = 0f64;
         let ax = x.abs();
@@ -151,8 +156,13 @@ pub fn In(n: u32, x: f64) -> f64 {
         i0(x)
     } else if n == 1 {
         i1(x)
-    } else if x.powi(2) <= 8.0 * f64::MIN_POSITIVE {
-        0f64
+    } else if x.abs() < 1e-120 {
+        // The leading term x^n / (2^n n!), the recurrence would overflow
+        if n == 2 {
+            x.powi(2) / 8.0
+        } else {
+            0f64
+        }
     } else {
         let tox = 2f64 / x.abs();
         let mut bip = 0f64;
-- 
2.43.0


From d510f23fb90f2d91f2cd0e168e4441497e060f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 27/38] fix: besseljy returns NaN for J where Y overflows at a
 tiny argument

---
 src/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 9445f24..ab5507a 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -454,6 +454,10 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         ry1 = rytemp;
         if rymu.is_infinite() {
             // All higher orders overflow as well, going on would give inf - inf
+            if x < XMIN {
+                // J underflows, its recurrence may have overflowed
+                return (0f64, rymu, 0f64, -rymu);
+            }
             return (jo, rymu, jpo, -rymu);
         }
     }
-- 
2.43.0


From ee2c73e346fc5a25704f3f3bac2f1c865d946a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 28/38] fix: besseljy and besselik return a zero derivative for
 nu = 0 and a tiny argument

---
 src/bessel.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index ab5507a..fe827de 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -308,7 +308,6 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut rjl = isign as f64 * FPMIN;
     let mut rjpl = h * rjl;
     let mut rjl1 = rjl;
-    let mut rjp1 = rjpl;
 
     let rjmu: f64;
     let mut rymu: f64;
@@ -326,7 +325,6 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
             rjl /= BIG;
             rjpl /= BIG;
             rjl1 /= BIG;
-            rjp1 /= BIG;
         }
     }
     if rjl == 0f64 {
@@ -445,7 +443,7 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let fact = rjmu / rjl;
     let jo = rjl1 * fact;
-    let jpo = rjp1 * fact;
+    let jpo = h * jo;
     let mut rymm = 0f64;
     for i in 1..=nl {
         let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
@@ -664,7 +662,6 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut ril = FPMIN;
     let mut ripl = h * ril;
     let mut ril1 = ril;
-    let mut rip1 = ripl;
     let mut fact = nu * xi;
     for _ in (0..nl).rev() {
         let ritemp = fact * ril + ripl;
@@ -676,7 +673,6 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
             ril /= BIG;
             ripl /= BIG;
             ril1 /= BIG;
-            rip1 /= BIG;
         }
     }
     let f = ripl / ril;
@@ -770,7 +766,7 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let rkmup = xmu * xi * rkmu - rk1;
     let rimu = xi / (f * rkmu - rkmup);
     let io = (rimu * ril1) / ril;
-    let ipo = (rimu * rip1) / ril;
+    let ipo = h * io;
     let mut rkmm = 0f64;
     for i in 1..=nl {
         let i_f64 = i as f64;
-- 
2.43.0


From 81dbac1e6528865cd490332d81503405977f80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 29/38] fix: besselik loses the digits of I for a tiny argument

---
 src/bessel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index fe827de..89138e3 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -765,7 +765,12 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let rkmup = xmu * xi * rkmu - rk1;
     let rimu = xi / (f * rkmu - rkmup);
-    let io = (rimu * ril1) / ril;
+    let io = if nl == 0 {
+        // ril1 equals ril, and the product may underflow
+        rimu
+    } else {
+        (rimu * ril1) / ril
+    };
     let ipo = h * io;
     let mut rkmm = 0f64;
     for i in 1..=nl {
-- 
2.43.0


From 559d810954ede0dae1b6df8ab691582d66594e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 30/38] fix: refine invgammp by relative steps, so that
 subnormal results are accurate

For results below about 1e-308 the density or (a-1)/x overflowed, the Halley
step became zero and the unrefined first guess was returned, wrong by up to a
factor of two and out of order.
---
 src/gamma.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 2e85188..00a3d4b 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -478,10 +478,11 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
             return 0f64;
         }
         let err = gammp(a, x) - p;
+        // x times the density, and the Newton step relative to x: neither overflows for tiny x
         t = if a > 1f64 {
-            afac * (-(x - a1) + a1 * (x.ln() - lna1)).exp()
+            x * afac * (-(x - a1) + a1 * (x.ln() - lna1)).exp()
         } else {
-            (-x + a1 * x.ln() - gln).exp()
+            (-x + a * x.ln() - gln).exp()
         };
         let u = err / t;
         if !u.is_finite() {
@@ -489,7 +490,7 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
             break;
         }
         // Halley's method
-        t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - 1f64)));
+        t = x * u / (1f64 - 0.5 * 1f64.min(u * (a1 - x)));
         x -= t;
         if x <= 0f64 {
             x = 0.5 * (x + t);
-- 
2.43.0


From 21592bd9306d78b542a951c7437a09b491a8914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 31/38] fix: refine invbetai by relative steps, so that
 subnormal results are accurate

For results below about 1e-308 the density or (a-1)/x overflowed and the
unrefined first guess was returned; a guess that rounds to 0 was returned even
where the inverse does not underflow.
---
 src/beta.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/beta.rs b/src/beta.rs
index ad0cec7..c833fac 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -215,8 +215,8 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
             1f64 - (b * w * (1f64 - p)).powf(1f64 / b)
         };
     }
-    // A guess that rounds to 1 would end the iteration before it starts
-    x = x.min(1f64 - EPS / 2f64);
+    // A guess that rounds to 0 or 1 would end the iteration before it starts
+    x = x.clamp(f64::MIN_POSITIVE * EPS, 1f64 - EPS / 2f64);
     let afac = -ln_gamma(a) - ln_gamma(b) + ln_gamma(a + b);
     let mut lo = 0f64;
     let mut hi = 1f64;
@@ -230,14 +230,15 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         } else {
             hi = x;
         }
-        t = (a1 * x.ln() + b1 * (1f64 - x).ln() + afac).exp();
+        // x times the density, and the Newton step relative to x: neither overflows for tiny x
+        t = (a * x.ln() + b1 * (1f64 - x).ln() + afac).exp();
         u = err / t;
         if !u.is_finite() {
             // The density underflows at x, bisect
             x = 0.5 * (lo + hi);
             continue;
         }
-        t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - b1 / (1f64 - x))));
+        t = x * u / (1f64 - 0.5 * 1f64.min(u * (a1 - b1 * x / (1f64 - x))));
         x -= t;
         if x <= 0f64 {
             x = 0.5 * (x + t);
-- 
2.43.0


From 872d9799fa67f12dabf9ac95415862513bb936b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 32/38] fix: ln_gamma returns infinity for positive arguments
 below 4e-307

The leading term of the Lanczos sum overflowed. beta returned infinity there too.
---
 src/gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 00a3d4b..2af4467 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -38,7 +38,13 @@ pub fn ln_gamma(z: f64) -> f64 {
         s += coeff / (z + (i as f64 - 1f64));
     }
     s += LG5N7[0];
-    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z - 0.5)
+    let ln_s = if s.is_finite() {
+        s.ln()
+    } else {
+        // 1 / z overflows
+        LG5N7[1].ln() - z.ln()
+    };
+    (2f64 * PI).sqrt().ln() + ln_s - base + base.ln() * (z - 0.5)
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From ad5678e36627d2583cdf6fdf8c452276f004f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:56 +0000
Subject: [PATCH 33/38] fix: gammp is 0 and gammq 1 for shapes below about
 1e-304

1/a and Gamma(a) overflow in the series; use Gamma(a + 1).
---
 src/gamma.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 2af4467..7f12c8e 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -284,10 +284,11 @@ pub fn gammq(a: f64, x: f64) -> f64 {
 /// Series expansion
 fn gser(a: f64, x: f64) -> f64 {
     const MAXIT: usize = 10_000;
-    let gln = ln_gamma(a);
+    // With Gamma(a + 1) in place of a Gamma(a): 1 / a would overflow for tiny a
+    let gln = ln_gamma(a + 1f64);
     let mut ap = a;
-    let mut del = 1f64 / a;
-    let mut sum = 1f64 / a;
+    let mut del = 1f64;
+    let mut sum = 1f64;
     for _ in 0..MAXIT {
         ap += 1f64;
         del *= x / ap;
-- 
2.43.0


From 1ee831b135860635c6d37580f9dc8e69d64a4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:19 +0000
Subject: [PATCH 34/38] fix: besselik returned I = 0 for representable values
 at orders far above a large x

---
 src/bessel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 89138e3..0d8e5a8 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -786,8 +786,9 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     } else {
         nu * xi * rkmu - rk1
     };
-    if x < XMIN && nl > 0 {
-        // The Wronskian at order nu: at order xmu < 0 it cancels for small x
+    if (x < XMIN || ril1 == 0f64) && nl > 0 {
+        // The Wronskian at order nu: at order xmu < 0 it cancels for small x,
+        // and ril1 may have underflowed although I itself is representable
         let io = 1.0 / (x * rkmm + (nu + x * h) * ko);
         return (io, ko, h * io, kpo);
     }
-- 
2.43.0


From 0f2c7bf8d2068ca4484facb81b3c36606d194dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:03 +0000
Subject: [PATCH 35/38] fix: ln_gamma overflows too early just below its
 overflow point

---
 src/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 7f12c8e..5eded44 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -44,7 +44,8 @@ pub fn ln_gamma(z: f64) -> f64 {
         // 1 / z overflows
         LG5N7[1].ln() - z.ln()
     };
-    (2f64 * PI).sqrt().ln() + ln_s - base + base.ln() * (z - 0.5)
+    // Doubled at the end: the last product alone may overflow where the sum does not
+    2f64 * (0.5 * ((2f64 * PI).sqrt().ln() + ln_s) - 0.5 * base + base.ln() * (0.5 * (z - 0.5)))
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From 5eba061786f7571e7612f58a146ba7712d61a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:04 +0000
Subject: [PATCH 36/38] fix: Yn and besseljy overflow too early just below the
 overflow point

---
 src/bessel.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 0d8e5a8..de8d043 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -115,11 +115,12 @@ pub fn Yn(n: u32, x: f64) -> f64 {
     } else if n == 1 {
         y1(x)
     } else {
-        let tox = 2.0 / x;
+        let xi = 1.0 / x;
         let mut by = y1(x);
         let mut bym = y0(x);
         for j in 1..n {
-            let byp = j as f64 * tox * by - bym;
+            // Doubled at the end: the first term alone may overflow where the difference does not
+            let byp = 2.0 * (j as f64 * xi * by - 0.5 * bym);
             bym = by;
             by = byp;
             if by.is_infinite() {
@@ -446,7 +447,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let jpo = h * jo;
     let mut rymm = 0f64;
     for i in 1..=nl {
-        let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
+        // Doubled at the end: the first term alone may overflow where the difference does not
+        let rytemp = 2.0 * ((xmu + i as f64) * xi * ry1 - 0.5 * rymu);
         rymm = rymu;
         rymu = ry1;
         ry1 = rytemp;
@@ -461,7 +463,7 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let yo = rymu;
     let ypo = if ry1.is_infinite() {
-        rymm - nu * xi * rymu
+        2.0 * (0.5 * rymm - 0.5 * nu * xi * rymu)
     } else {
         nu * xi * rymu - ry1
     };
-- 
2.43.0


From 77353ddde648c3ced09ae12e200d26147bfb1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:05 +0000
Subject: [PATCH 37/38] fix: besseljy gives NaN where Y vanishes

---
 src/bessel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index de8d043..5d80044 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -439,7 +439,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         let rjmu_temp = (w / ((p - f) * gam + q)).sqrt();
         rjmu = if rjl < 0f64 { -rjmu_temp } else { rjmu_temp };
         rymu = gam * rjmu;
-        rymup = rymu * (p + q / gam);
+        // Not via q / gam: gam is zero where Y vanishes
+        rymup = p * rymu + q * rjmu;
         ry1 = xmu * xi * rymu - rymup;
     }
     let fact = rjmu / rjl;
-- 
2.43.0


From 07486b5b944c9bebe64d9516ff3ec35fb935caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:47 +0000
Subject: [PATCH 38/38] fix: In, Kn and besselik overflow or underflow too
 early for large arguments

---
 src/bessel.rs | 84 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 5d80044..5170d42 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -153,10 +153,12 @@ pub fn In(n: u32, x: f64) -> f64 {
     let acc = 200f64;
     let iexp = f64::MAX_EXP / 2;
     let n_f64 = n as f64;
+    // i0 overflows before In does
+    let scale = exponential_scale(x.abs());
     if n == 0 {
-        i0(x)
+        i0(x, scale) * scale.exp()
     } else if n == 1 {
-        i1(x)
+        i1(x, scale) * scale.exp()
     } else if x.abs() < 1e-120 {
         // The leading term x^n / (2^n n!), the recurrence would overflow
         if n == 2 {
@@ -171,7 +173,7 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bi = 1f64;
         // Number of times the answer has to be scaled back: it may underflow before i0(x) is applied
         let mut scaled = 0i32;
-        // Start high enough for both a large order and a large argument (i0 overflows long before the cap)
+        // Start high enough for both a large order and a large argument (In overflows long before the cap)
         let start = n_f64.max(x.abs().min(1e4));
         for j in (1..2 * (n + (acc * start).sqrt() as u32)).rev() {
             let bim = j as f64 * tox * bi + bip;
@@ -189,8 +191,9 @@ pub fn In(n: u32, x: f64) -> f64 {
             }
         }
         let (ratio, k) = frexp(ans / bi);
-        let (i0x, l) = frexp(i0(x));
-        ans = ldexp(ratio * i0x, k + l - scaled * iexp);
+        let (i0x, l) = frexp(i0(x, scale));
+        let (e, m) = frexp(scale.exp());
+        ans = ldexp(ratio * i0x * e, k + l + m - scaled * iexp);
         if x < 0f64 && n % 2 == 1 {
             -ans
         } else {
@@ -218,19 +221,26 @@ pub fn In(n: u32, x: f64) -> f64 {
 #[allow(non_snake_case)]
 pub fn Kn(n: u32, x: f64) -> f64 {
     if n == 0 {
-        k0(x)
+        k0(x, 0f64)
     } else if n == 1 {
-        k1(x)
+        k1(x, 0f64)
     } else {
         let tox = 2.0 / x;
-        let mut bkm = k0(x);
-        let mut bk = k1(x);
+        // k0 underflows before Kn does
+        let mut scale = exponential_scale(x);
+        let mut bkm = k0(x, scale);
+        let mut bk = k1(x, scale);
         for j in 1..n {
             let bkp = j as f64 * tox * bk + bkm;
             bkm = bk;
             bk = bkp;
+            if bk > 1e250 && scale > 0f64 {
+                bkm *= (-scale).exp();
+                bk *= (-scale).exp();
+                scale = 0f64;
+            }
         }
-        bk
+        bk * (-scale).exp()
     }
 }
 
@@ -680,6 +690,9 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let f = ripl / ril;
 
+    // K at order xmu underflows before the results at order nu do
+    let mut scale = exponential_scale(x);
+    let grow = scale.exp();
     let mut rkmu: f64;
     let mut rk1: f64;
     if x < XMIN {
@@ -763,16 +776,16 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
             panic!("besselik: failure to converge in cf2");
         }
         h *= a1;
-        rkmu = (PI / (2.0 * x)).sqrt() * (-x).exp() / s;
+        rkmu = (PI / (2.0 * x)).sqrt() * (scale - x).exp() / s;
         rk1 = rkmu * (xmu + x + 0.5 - h) * xi;
     }
     let rkmup = xmu * xi * rkmu - rk1;
     let rimu = xi / (f * rkmu - rkmup);
     let io = if nl == 0 {
         // ril1 equals ril, and the product may underflow
-        rimu
+        rimu * grow
     } else {
-        (rimu * ril1) / ril
+        (rimu * ril1) / ril * grow
     };
     let ipo = h * io;
     let mut rkmm = 0f64;
@@ -782,14 +795,24 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rkmm = rkmu;
         rkmu = rk1;
         rk1 = rktemp;
+        if rk1 > BIG && scale > 0f64 {
+            rkmm *= (-scale).exp();
+            rkmu *= (-scale).exp();
+            rk1 *= (-scale).exp();
+            scale = 0f64;
+        }
     }
+    let shrink = (-scale).exp();
+    rkmm *= shrink;
+    rkmu *= shrink;
+    rk1 *= shrink;
     let ko = rkmu;
     let kpo = if rk1.is_infinite() {
         -rkmm - nu * xi * rkmu
     } else {
         nu * xi * rkmu - rk1
     };
-    if (x < XMIN || ril1 == 0f64) && nl > 0 {
+    if (x < XMIN || ril1 < f64::MIN_POSITIVE) && nl > 0 {
         // The Wronskian at order nu: at order xmu < 0 it cancels for small x,
         // and ril1 may have underflowed although I itself is representable
         let io = 1.0 / (x * rkmm + (nu + x * h) * ko);
@@ -1059,27 +1082,36 @@ fn poly(x: f64, coef: &[f64], n: usize) -> f64 {
     ans
 }
 
-/// Modified Bessel function of the first kind (n=0)
-fn i0(x: f64) -> f64 {
+/// For arguments where `exp(x)` is close to overflow: the part of the exponent to be applied in the end
+fn exponential_scale(x: f64) -> f64 {
+    if x > 700f64 {
+        (0.5 * x).min(700f64)
+    } else {
+        0f64
+    }
+}
+
+/// Modified Bessel function of the first kind (n=0), divided by `exp(scale)` for a large argument
+fn i0(x: f64, scale: f64) -> f64 {
     let ax = x.abs();
     if ax < 15f64 {
         let y = x.powi(2);
         poly(y, &I0P, 13) / poly(225f64 - y, &I0Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        ax.exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))
+        (ax - scale).exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))
     }
 }
 
-/// Modified Bessel function of the first kind (n=1)
-fn i1(x: f64) -> f64 {
+/// Modified Bessel function of the first kind (n=1), divided by `exp(scale)` for a large argument
+fn i1(x: f64, scale: f64) -> f64 {
     let ax = x.abs();
     if ax < 15f64 {
         let y = x.powi(2);
         x * poly(y, &I1P, 13) / poly(225f64 - y, &I1Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        let ans = ax.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
+        let ans = (ax - scale).exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
         if x < 0f64 {
             -ans
         } else {
@@ -1088,27 +1120,27 @@ fn i1(x: f64) -> f64 {
     }
 }
 
-/// Modified Bessel function of the second kind (n=0)
-fn k0(x: f64) -> f64 {
+/// Modified Bessel function of the second kind (n=0), multiplied by `exp(scale)` for a large argument
+fn k0(x: f64, scale: f64) -> f64 {
     if x <= 1f64 {
         let z = x.powi(2);
         let term = poly(z, &K0PI, 4) * x.ln() / poly(1f64 - z, &K0QI, 2);
         poly(z, &K0P, 4) / poly(1f64 - z, &K0Q, 2) - term
     } else {
         let z = 1f64 / x;
-        (-x).exp() * poly(z, &K0PP, 7) / (x.sqrt() * poly(z, &K0QQ, 7))
+        (scale - x).exp() * poly(z, &K0PP, 7) / (x.sqrt() * poly(z, &K0QQ, 7))
     }
 }
 
-/// Modified Bessel function of the second kind (n=1)
-fn k1(x: f64) -> f64 {
+/// Modified Bessel function of the second kind (n=1), multiplied by `exp(scale)` for a large argument
+fn k1(x: f64, scale: f64) -> f64 {
     if x <= 1f64 {
         let z = x.powi(2);
         let term = poly(z, &K1PI, 4) * x.ln() / poly(1f64 - z, &K1QI, 2);
         x * (poly(z, &K1P, 4) / poly(1f64 - z, &K1Q, 2) + term) + 1f64 / x
     } else {
         let z = 1f64 / x;
-        (-x).exp() * poly(z, &K1PP, 7) / (x.sqrt() * poly(z, &K1QQ, 7))
+        (scale - x).exp() * poly(z, &K1PP, 7) / (x.sqrt() * poly(z, &K1QQ, 7))
     }
 }
 
-- 
2.43.0

