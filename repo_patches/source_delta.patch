From 25482216654b20cdb09248ea2d15df4be9447d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 01/17] fix: rounded_arith_opp::conv_down of unsigned values
 and of the smallest integer

Negating the value before the conversion wraps around for unsigned types and
overflows for the smallest signed integer, so the lower bound was wrong.
---
 include/boost/numeric/interval/rounded_arith.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..f1adeb3 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -90,7 +90,7 @@ struct rounded_arith_opp: Rounding {
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
-  template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  template<class U> T conv_down(U const &v) { BOOST_DN(v); }
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From eaf16fb36788b2a7dceb18e59fcb18c3b54273b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 02/17] fix: assign with an upper bound that refers to the
 lower bound of the same interval

x.assign(l, x.lower()) overwrote its second argument before reading it.
---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..dc76a61 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
+  T const v(u); // u may refer to low
   low = l;
-  up  = u;
+  up  = v;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 12b4f707f2e33a0d9b52f99e134d0fa10d955670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 03/17] fix: misspelled signaling_NaN in
 numeric_limits<interval>

Instantiating the function did not compile.
---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From ac588deb82a4da413963561da758cbdf4f259856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 04/17] fix: subset of intervals with different policies

Unlike proper_subset, overlap and equal, subset required both intervals to have
the same policies, so compare::set::operator<= and >= did not compile.
---
 include/boost/numeric/interval/utility.hpp     | 6 +++---
 include/boost/numeric/interval/utility_fwd.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..7a097b1 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -120,9 +120,9 @@ bool in(const T& x, const interval<T, Policies>& y)
   return y.lower() <= x && x <= y.upper();
 }
 
-template<class T, class Policies> inline
-bool subset(const interval<T, Policies>& x,
-            const interval<T, Policies>& y)
+template<class T, class Policies1, class Policies2> inline
+bool subset(const interval<T, Policies1>& x,
+            const interval<T, Policies2>& y)
 {
   if (empty(x)) return true;
   return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 5fce06c..368affd 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -58,11 +58,11 @@ namespace boost { namespace numeric {
     template <class T, class Policies>
     bool in(const T& x, const interval<T,Policies>& y);
 
-    template <class T, class Policies>
+    template <class T, class Policies1, class Policies2>
     bool
         subset(
-            const interval<T,Policies>& x
-          , const interval<T,Policies>& y
+            const interval<T,Policies1>& x
+          , const interval<T,Policies2>& y
         );
 
     template <class T, class Policies1, class Policies2>
-- 
2.43.0


From 13e491888c8a08bcae3f644e459de5974c93024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 05/17] fix: pow of a zero interval to the power zero

The result was empty; the documentation says it is 1 for any non-empty interval,
which is also what the inclusion of the result for wider intervals requires.
---
 include/boost/numeric/interval/arith2.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..c204583 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -166,11 +166,7 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
     return I::empty();
 
   if (pwr == 0)
-    if (interval_lib::user::is_zero(x.lower())
-        && interval_lib::user::is_zero(x.upper()))
-      return I::empty();
-    else
-      return I(static_cast<T>(1));
+    return I(static_cast<T>(1));
   else if (pwr < 0)
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
 
-- 
2.43.0


From fa016ee628455fa2fdd7870f722b2cb226243040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 06/17] fix: rounded_transc_opp lower bounds were rounded
 upward

-force_rounding(-f(x)) evaluates f(x) in the upward mode, so the *_down functions
returned the same value as the *_up ones. The odd functions now use f(-x); acosh,
which is not odd, is evaluated in the downward mode like asinh and atanh.
---
 include/boost/numeric/interval/rounded_transc.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..b699693 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -120,16 +120,8 @@ struct rounded_transc_opp: Rounding
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
-# undef BOOST_NUMERIC_INTERVAL_new_func
-# define BOOST_NUMERIC_INTERVAL_new_func(f) \
-    T f##_down(const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
-    T f##_up  (const T& x) \
-    { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return this->force_rounding(f(x)); }
   BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From 475e945010e94ef8464a25cd758f059b946a4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 07/17] fix: nth_root of an interval with an infinite upper
 bound

The Newton iteration computed inf - inf and the upper bound became a NaN.
---
 include/boost/numeric/interval/arith2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index c204583..3723384 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -227,6 +227,7 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
+  if (x / tk == x) return y; // x is infinite
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From 8eb3a58cfa700774b5473737a7376e1f4137ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 08/17] fix: nth_root used the unprotected type without a
 rounding object

---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 3723384..1557eb3 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -270,6 +270,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd;
+  (void)&rnd; // it only protects the computations on R
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From bd8b692aca2d4785265fe3ef7d3d404ccc0e67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 09/17] fix: integer rounding of long double went through
 double

---
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..00084c9 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
@@ -33,6 +33,7 @@ struct c99_rounding_control
 
   template<class T>
   static T to_int(const T& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace detail
-- 
2.43.0


From bc6514a51ea38efedd170d2dbb2b5ebec211f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 10/17] fix: PowerPC rounding control did not compile as C++11
 (narrowing in brace initializer)

---
 .../numeric/interval/detail/ppc_rounding_control.hpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
index 87fe8ee..58b6011 100644
--- a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
@@ -28,10 +28,10 @@ typedef union {
   double dmode;
 } rounding_mode_struct;
 
-static const rounding_mode_struct mode_upward      = { 0xFFF8000000000002LL };
-static const rounding_mode_struct mode_downward    = { 0xFFF8000000000003LL };
-static const rounding_mode_struct mode_to_nearest  = { 0xFFF8000000000000LL };
-static const rounding_mode_struct mode_toward_zero = { 0xFFF8000000000001LL };
+static const rounding_mode_struct mode_upward      = { static_cast< ::boost::long_long_type>(0xFFF8000000000002LL) };
+static const rounding_mode_struct mode_downward    = { static_cast< ::boost::long_long_type>(0xFFF8000000000003LL) };
+static const rounding_mode_struct mode_to_nearest  = { static_cast< ::boost::long_long_type>(0xFFF8000000000000LL) };
+static const rounding_mode_struct mode_toward_zero = { static_cast< ::boost::long_long_type>(0xFFF8000000000001LL) };
 
 struct ppc_rounding_control
 {
-- 
2.43.0


From 74613189de8eded4cda2f65cd678677e164c4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 11/17] fix: frndint in the 32-bit x86 rounding control could
 be merged across a change of rounding mode

---
 .../boost/numeric/interval/detail/x86gcc_rounding_control.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
index dcdc7e2..f829ec1 100644
--- a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
@@ -38,7 +38,7 @@ struct x86_rounding
   static T to_int(T r)
   {
     T r_;
-    __asm__ ("frndint" : "=&t"(r_) : "0"(r));
+    __asm__ __volatile__ ("frndint" : "=&t"(r_) : "0"(r));
     return r_;
   }
 };
-- 
2.43.0


From 196e405fbc216bab6078323d4d9e30c1f357c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 12/17] fix: integer rounding of long double went through
 double on PowerPC and SPARC

---
 include/boost/numeric/interval/detail/ppc_rounding_control.hpp | 3 ++-
 .../boost/numeric/interval/detail/sparc_rounding_control.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
index 58b6011..6840732 100644
--- a/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/ppc_rounding_control.hpp
@@ -57,6 +57,7 @@ struct ppc_rounding_control
 extern "C" {
   float rintf(float);
   double rint(double);
+  long double rintl(long double);
 }
 #endif
 
@@ -86,7 +87,7 @@ struct rounding_control<long double>:
   detail::ppc_rounding_control
 {
   static const long double & force_rounding(const long double& r) { return r; }
-  static long double to_int(const long double& r) { return rint(r); }
+  static long double to_int(const long double& r) { return rintl(r); }
 };
 
 } // namespace interval_lib
diff --git a/include/boost/numeric/interval/detail/sparc_rounding_control.hpp b/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
index 2b08bec..88e557e 100644
--- a/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/sparc_rounding_control.hpp
@@ -77,6 +77,7 @@ struct sparc_rounding_control
 extern "C" {
   float rintf(float);
   double rint(double);
+  long double rintl(long double);
 }
 
 template<>
@@ -100,7 +101,7 @@ struct rounding_control<long double>:
   detail::sparc_rounding_control
 {
   static const long double& force_rounding(const long double& x) { return x; }
-  static long double to_int(const long double& x) { return rint(x); }
+  static long double to_int(const long double& x) { return rintl(x); }
 };
 
 } // namespace interval_lib
-- 
2.43.0


From e5b9e1c64ac044743e7ef427a6b41706f805d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 13/17] fix: include the definition of comparison_error in the
 comparison headers

They throw it, but only saw its forward declaration, so that a translation
unit which includes one of them alone is rejected by compilers that check
non-dependent types in templates (clang).
---
 include/boost/numeric/interval/compare/certain.hpp       | 1 +
 include/boost/numeric/interval/compare/lexicographic.hpp | 1 +
 include/boost/numeric/interval/compare/possible.hpp      | 1 +
 include/boost/numeric/interval/compare/set.hpp           | 1 +
 include/boost/numeric/interval/compare/tribool.hpp       | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/boost/numeric/interval/compare/certain.hpp b/include/boost/numeric/interval/compare/certain.hpp
index 9232d5c..576e892 100644
--- a/include/boost/numeric/interval/compare/certain.hpp
+++ b/include/boost/numeric/interval/compare/certain.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_CERTAIN_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/lexicographic.hpp b/include/boost/numeric/interval/compare/lexicographic.hpp
index 03f6036..7139c19 100644
--- a/include/boost/numeric/interval/compare/lexicographic.hpp
+++ b/include/boost/numeric/interval/compare/lexicographic.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_LEXICOGRAPHIC_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/possible.hpp b/include/boost/numeric/interval/compare/possible.hpp
index 59bec31..2849837 100644
--- a/include/boost/numeric/interval/compare/possible.hpp
+++ b/include/boost/numeric/interval/compare/possible.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_POSSIBLE_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/compare/set.hpp b/include/boost/numeric/interval/compare/set.hpp
index 44f4d6e..0f29ac6 100644
--- a/include/boost/numeric/interval/compare/set.hpp
+++ b/include/boost/numeric/interval/compare/set.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_SET_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/utility.hpp>
 
diff --git a/include/boost/numeric/interval/compare/tribool.hpp b/include/boost/numeric/interval/compare/tribool.hpp
index 6e4a83e..1486cb2 100644
--- a/include/boost/numeric/interval/compare/tribool.hpp
+++ b/include/boost/numeric/interval/compare/tribool.hpp
@@ -11,6 +11,7 @@
 #define BOOST_NUMERIC_INTERVAL_COMPARE_TRIBOOL_HPP
 
 #include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/interval.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/logic/tribool.hpp>
 
-- 
2.43.0


From 06302c633090f5a986b05f2d86d8fcacec64b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 14/17] fix: include hw_rounding.hpp in
 x86_fast_rounding_control.hpp

The header uses detail::x86_rounding and fpu_rounding_modes without
including a header that declares them, so it could not be included alone
on x86.
---
 .../boost/numeric/interval/ext/x86_fast_rounding_control.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/ext/x86_fast_rounding_control.hpp b/include/boost/numeric/interval/ext/x86_fast_rounding_control.hpp
index a505ead..0c56353 100644
--- a/include/boost/numeric/interval/ext/x86_fast_rounding_control.hpp
+++ b/include/boost/numeric/interval/ext/x86_fast_rounding_control.hpp
@@ -17,6 +17,8 @@
 #ifndef BOOST_NUMERIC_INTERVAL_EXT_X86_FAST_ROUNDING_CONTROL_HPP
 #define BOOST_NUMERIC_INTERVAL_EXT_X86_FAST_ROUNDING_CONTROL_HPP
 
+#include <boost/numeric/interval/hw_rounding.hpp>
+
 namespace boost {
 namespace numeric {
 namespace interval_lib {
-- 
2.43.0


From 59e0fae866f83465fd85dd2c19637f25ad35a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 15/17] fix: divide with the rounding policy in root_aux

The test for an infinite operand used the division operator of the base
type, which is not among the requirements on it.
---
 include/boost/numeric/interval/arith2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 1557eb3..a809073 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -227,7 +227,8 @@ I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
   typedef typename I::base_type T;
   T tk(k);
   I y(static_cast<T>(1), x, true);
-  if (x / tk == x) return y; // x is infinite
+  typename I::traits_type::rounding rnd;
+  if (rnd.div_down(x, tk) == x) return y; // x is infinite
   for(;;) {
     T y0 = median(y);
     I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
-- 
2.43.0


From fe5f4bfc610c9a99cd17099e19158740a13b3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 16/17] fix: function headers include what their functions use

arith.hpp used zero_in, arith2.hpp median, transc.hpp width, abs the unary
minus and the mixed operators the compound ones without the headers that
declare them.
---
 include/boost/numeric/interval/arith.hpp       | 1 +
 include/boost/numeric/interval/ext/integer.hpp | 2 +-
 include/boost/numeric/interval/utility.hpp     | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/arith.hpp b/include/boost/numeric/interval/arith.hpp
index 0d598be..c12b21c 100644
--- a/include/boost/numeric/interval/arith.hpp
+++ b/include/boost/numeric/interval/arith.hpp
@@ -16,6 +16,7 @@
 #include <boost/numeric/interval/detail/bugs.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 #include <boost/numeric/interval/detail/division.hpp>
+#include <boost/numeric/interval/utility.hpp>
 #include <algorithm>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/ext/integer.hpp b/include/boost/numeric/interval/ext/integer.hpp
index 628a343..ffb1fdd 100644
--- a/include/boost/numeric/interval/ext/integer.hpp
+++ b/include/boost/numeric/interval/ext/integer.hpp
@@ -10,7 +10,7 @@
 #ifndef BOOST_NUMERIC_INTERVAL_EXT_INTEGER_HPP
 #define BOOST_NUMERIC_INTERVAL_EXT_INTEGER_HPP
 
-#include <boost/numeric/interval/detail/interval_prototype.hpp>
+#include <boost/numeric/interval/arith.hpp>
 #include <boost/numeric/interval/detail/test_input.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 7a097b1..54cb40e 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -262,7 +262,7 @@ interval<T, Policies> abs(const interval<T, Policies>& x)
   if (interval_lib::detail::test_input(x))
     return I::empty();
   if (!interval_lib::user::is_neg(x.lower())) return x;
-  if (!interval_lib::user::is_pos(x.upper())) return -x;
+  if (!interval_lib::user::is_pos(x.upper())) return I(-x.upper(), -x.lower(), true);
   BOOST_USING_STD_MAX();
   return I(static_cast<T>(0), max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), true);
 }
-- 
2.43.0


From c8ecb7ce4e666b0ef9c06faceb197bb5db600279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 17/17] fix: division_part1 split a quotient that is one
 interval

The quotient of [0,u] by an interval straddling zero is the whole line, like
the quotient of [-u,0]: the result is one interval and the flag is false.
---
 include/boost/numeric/interval/detail/division.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..aa79840 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -166,7 +166,7 @@ interval<T, Policies> div_zero_part1(const interval<T, Policies>& x,
   typedef typename Policies::checking checking;
   if (::boost::numeric::interval_lib::user::is_neg(xu))
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
-  else if (::boost::numeric::interval_lib::user::is_neg(xl))
+  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
     { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
   else
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
-- 
2.43.0

