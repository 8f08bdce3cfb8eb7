From b970775dbfba8cd183b17025592715834fb71610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 01/24] fix: scale mantissa and find_exponent identically

mantissa() and find_exponent() rescaled x by different factors, so rounding
could make them disagree by one decade: log(1e-300) was off by log(10).
---
 include/gcem_incl/mantissa.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/mantissa.hpp b/include/gcem_incl/mantissa.hpp
index af23ea2..87c5ef4 100644
--- a/include/gcem_incl/mantissa.hpp
+++ b/include/gcem_incl/mantissa.hpp
@@ -34,8 +34,14 @@ T
 mantissa(const T x)
 noexcept
 {
-    return( x < T(1) ? \
-                mantissa(x * T(10)) : 
+    return( // < 1; same scaling steps as find_exponent, so that the two always agree
+            x < T(1e-03) ? \
+                mantissa(x * T(1e+04)) :
+            x < T(1e-01) ? \
+                mantissa(x * T(1e+02)) :
+            x < T(1) ? \
+                mantissa(x * T(10)) :
+            // > 10
             x > T(10) ? \
                 mantissa(x / T(10)) :
             // else
-- 
2.43.0


From e390f5bab01629710e1cda362a7e3e93b44b3179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 02/24] fix: exp of huge finite arguments

find_whole() converts to long long, which is undefined for |x| >= 2^63.
---
 include/gcem_incl/exp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..8d37985 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -105,6 +105,10 @@ noexcept
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
+            // certain overflow or underflow
+            abs(x) > T(GCLIM<T>::max_exponent + GCLIM<T>::digits) ? \
+                (x < T(0) ? T(0) : GCLIM<T>::infinity()) :
+            // else
                 exp_split(x) );
 }
 
-- 
2.43.0


From 52a068c318912d4dcad143e0152db877e3c0e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 03/24] fix: saturate tanh

The truncated continued fraction diverges from 1 for large |x| and is NaN
once x*x overflows.
---
 include/gcem_incl/tanh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..65687e3 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -86,6 +86,9 @@ noexcept
             // indistinguishable from zero
              GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+             // indistinguishable from +/- one
+             abs(x) > T(25) ? \
+                (x < T(0) ? T(-1) : T(1)) :
              // else
                 x < T(0) ? \
                     - tanh_begin(-x) : 
-- 
2.43.0


From dfc97cd040ad57d6912e60e618209aad45b8511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 04/24] fix: rescale small arguments in sqrt

The Newton iteration starts at x/2 and runs out of iterations for small x:
sqrt(1e-100) was wrong by many orders of magnitude.
---
 include/gcem_incl/sqrt.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..d4ecc21 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -61,6 +61,8 @@ noexcept
                 sqrt_simplify(x / T(100), T(10) * m_val) :
             x > T(4) ? \
                 sqrt_simplify(x / T(4), T(2) * m_val) :
+            x < T(1e-06) ? \
+                sqrt_simplify(x * T(1099511627776.0L), m_val / T(1048576.0L)) :
                 m_val * sqrt_recur(x, x / T(2), 0) );
 }
 
-- 
2.43.0


From 3d81ab07ae49aa088ab94e478ebeb76e36f8dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 05/24] fix: rescale large and small arguments in inv_sqrt

The Newton iteration starts at x/2 and runs out of iterations (or overflows)
far away from 1.
---
 include/gcem_incl/inv_sqrt.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..72ba135 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,19 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{
+    return( x > T(1e+07) ? \
+                inv_sqrt_simplify(x / T(1099511627776.0L), m_val / T(1048576.0L)) :
+            x < T(1e-06) ? \
+                inv_sqrt_simplify(x * T(1099511627776.0L), m_val * T(1048576.0L)) :
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +76,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From a29f78dba118806ab94b84af58707cf03f7665f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 06/24] fix: asinh of large and of negative arguments

x + sqrt(x*x + 1) cancels for x << 0 and overflows for large |x|.
---
 include/gcem_incl/asinh.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..9d761c3 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,12 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // odd function
+            x < T(0) ? \
+                - asinh_compute(-x) :
+            // x*x + 1 indistinguishable from x*x
+            x > T(1e+10) ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 793eac3f6b4807c2255646015ee36c580c89187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 07/24] fix: acosh of large arguments

x*x overflows.
---
 include/gcem_incl/acosh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..bba6950 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // x*x - 1 indistinguishable from x*x
+            x > T(1e+10) ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
-- 
2.43.0


From 72d9fbd3bf42f6888f33e02dd7f9294699e91c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 08/24] fix: lgamma (and tgamma, beta, ...) close to zero

x - 1 loses all significant digits of a small x.
---
 include/gcem_incl/lgamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..1a02207 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,9 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            // x - 1 cancels
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From eee12db114b9eacc567e1dc8014485f162881c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 09/24] fix: hypot with |x| << |y|

y/x (or its square) overflows although the result is representable.
---
 include/gcem_incl/hypot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..8e84d71 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -56,7 +56,9 @@ noexcept
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
             // else
-            hypot_compute(x, y/x) );
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From a104eeae6bfd068de53b49d6b4194de91d477af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 10/24] fix: log of a negative integer is NaN, not zero

---
 include/gcem_incl/log.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..2a7f1d6 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,9 +158,9 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
-                    log_check( static_cast<return_t<T>>(x) ) :
+                x == T(1) ? \
                     static_cast<return_t<T>>(0) :
+                    log_check( static_cast<return_t<T>>(x) ) :
             log_check( static_cast<return_t<T>>(x) ) );
 }
 
-- 
2.43.0


From 15280ac0689d7b3ff7495d03f2f803c700d376f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 11/24] fix: lcm(0,0) divides by zero

---
 include/gcem_incl/lcm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..7cf9574 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,9 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( a == T(0) || b == T(0) ? \
+                T(0) :
+                abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
-- 
2.43.0


From 4df35a83fb193d788f1e49b0520b7bf825fb1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 12/24] fix: pow with the extreme exponents of an integer type

The results were infinity and zero whatever the base: pow(1.0, INT_MAX) was
infinite.
---
 include/gcem_incl/pow_integral.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..2ddf60d 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -83,11 +83,9 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
+            // -min() is not representable
             exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
+                T1(1) / (pow_integral_compute_recur(base, T1(1), GCLIM<T2>::max()) * base) :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From 2313c1b6aa6a0967930a45eb9203717dbad4c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 13/24] fix: floor, ceil, trunc and round return an integer for
 subnormal arguments

---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From 62d1c453166672de4f85a7bde6ad58f0f77cec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:07 +0000
Subject: [PATCH 14/24] fix: tgamma of large negative arguments

find_whole() converts to long long, which is undefined for x < -2^63.
---
 include/gcem_incl/tgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..e239b52 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -45,7 +45,7 @@ noexcept
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                x == floor_check(x) ? \
                     GCLIM<T>::quiet_NaN() :
                 // else
                 tgamma_check(x+T(1)) / x :
-- 
2.43.0


From a63e9f935b8f78bc810b923885380766fba2d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 15/24] fix: lgamma (and tgamma) of infinity is infinity, not
 NaN

---
 include/gcem_incl/lgamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 1a02207..71d5997 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,8 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
             // x - 1 cancels
             x < T(0.5) ? \
                 lgamma_begin(x) - log(x) :
-- 
2.43.0


From 447a0d18b8c2e28917b1b2ba1179faecf88e5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 16/24] fix: lbeta and beta of integer and of mixed arguments

The arguments were added in their own type: lbeta(2000000000,2000000000)
overflowed a signed int, and with a float and a double the float's
log-gamma was computed in single precision.
---
 include/gcem_incl/lbeta.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..64cd1be 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -21,6 +21,20 @@
 #ifndef _gcem_lbeta_HPP
 #define _gcem_lbeta_HPP
 
+namespace internal
+{
+
+template<typename T>
+constexpr
+T
+lbeta_compute(const T a, const T b)
+noexcept
+{
+    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+}
+
+}
+
 /**
  * Compile-time log-beta function
  *
@@ -36,7 +50,8 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    return internal::lbeta_compute( static_cast<common_return_t<T1,T2>>(a),
+                                    static_cast<common_return_t<T1,T2>>(b) );
 }
 
 #endif
-- 
2.43.0


From 9aa2d7ed94fa6e479167916bd7170e027013f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:13 +0000
Subject: [PATCH 17/24] fix: incomplete_gamma of an infinite upper limit is
 one, not NaN

---
 include/gcem_incl/incomplete_gamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..0b1cea0 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -199,6 +199,9 @@ noexcept
             //
             GCLIM<T>::min() > a ? \
                 T(1) : 
+            //
+            is_posinf(z) && is_finite(a) ? \
+                T(1) :
             // cf or quadrature
             (a < T(10)) && (z - a < T(10)) ?
                 incomplete_gamma_cf_1(a,z) :
-- 
2.43.0


From fca9ebdbc5a7546c0447312fe7bdf47c917dae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 18/24] fix: quadrature tables are usable in constant
 expressions

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From a2e1626918520ecdeec8d828b66ca44b7e522261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:38 +0000
Subject: [PATCH 19/24] fix: signbit (hence copysign and atan2 at zero) is
 usable in constant expressions with clang

---
 include/gcem_incl/gcem_options.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcem_options.hpp b/include/gcem_incl/gcem_options.hpp
index 4113738..c532a6e 100644
--- a/include/gcem_incl/gcem_options.hpp
+++ b/include/gcem_incl/gcem_options.hpp
@@ -205,7 +205,8 @@ namespace gcem
     #endif
 #else
     #ifndef GCEM_SIGNBIT
-        #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        // __builtin_copysignl, because __builtin_signbit is not a constant expression in clang
+        #define GCEM_SIGNBIT(x) (__builtin_copysignl(1.0L,static_cast<long double>(x)) < 0.0L)
     #endif
     #ifndef GCEM_COPYSIGN
         #define GCEM_COPYSIGN(x,y) __builtin_copysign(x,y)
-- 
2.43.0


From 954002fc4359b4801290a22b5621bc1c6c737791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:45 +0000
Subject: [PATCH 20/24] fix: atan of a large argument is a constant expression
 (powers of the argument overflowed)

---
 include/gcem_incl/atan.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..14a5af5 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,9 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1e07) ? atan_series_order(x,x,1U,2U)  :  // O(1/x^7)
+            // higher powers of x could overflow
+                          atan_series_order(x,x,1U,1U) );  // O(1/x^3)
 }
 
 // CF
-- 
2.43.0


From 7fc9e56d7cf000ef1e3dc248f86fcc384f2e6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 21/24] fix: erf of a large argument is a constant expression
 (the square of the argument overflowed)

---
 include/gcem_incl/erf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/erf.hpp b/include/gcem_incl/erf.hpp
index ce920fb..5331733 100644
--- a/include/gcem_incl/erf.hpp
+++ b/include/gcem_incl/erf.hpp
@@ -137,7 +137,10 @@ T
 erf_begin(const T x)
 noexcept
 {
-    return( x > T(2.1) ? \
+    return( // indistinguishable from one (and x*x could overflow)
+            x > T(10) ? \
+                T(1) :
+            x > T(2.1) ? \
             // if
                 erf_cf_large_main(x) :
             // else
-- 
2.43.0


From 3d4e990383a4b0d1df86fa109bdc1973ab081ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 22/24] fix: pow, gcd, lcm and binomial_coef of narrow integer
 types do not compile

---
 include/gcem_incl/binomial_coef.hpp | 3 ++-
 include/gcem_incl/gcd.hpp           | 2 +-
 include/gcem_incl/pow_integral.hpp  | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..5c6869e 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -34,7 +34,8 @@ noexcept
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
                 n == T(0) ? T(0) :
             // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                binomial_coef_recur(static_cast<T>(n-1),static_cast<T>(k-1)) \
+                    + binomial_coef_recur(static_cast<T>(n-1),k) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..2fc2fde 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur(b, static_cast<T>(a % b)) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 2ddf60d..2bbda56 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur(static_cast<T1>(base*base),static_cast<T1>(val*base),exp_term/2) :
+                    pow_integral_compute_recur(static_cast<T1>(base*base),val,exp_term/2)) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From 5548d230db1fdf6af84ed8d15f95efe7e1567cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 23/24] fix: incomplete_beta_inv of integer arguments computes
 in the integer type (and divides by zero)

---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From f72ff214bc4c00941c7b8c6e28f3de5e189d86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 24/24] fix: pow of an integer base and a wider exponent type
 overflows or truncates in the base type

---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0

