From 239a60bc9b508540166447680c566452847b876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 01/18] fix: cancel_minus checks the validity of both operands

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..47a2c67 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -86,7 +86,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 943077d377434b3c07231da4dc93122fdcf73c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 02/18] fix: mixed-type cancel_plus negates the second operand
 in its own type

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 47a2c67..435742c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +76,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From c8072da0f49ae8742dc9d92b4beabaea42ada9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 03/18] fix: abs_rev compiles for interval types other than
 double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..3dd334c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(T(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From af184bea64bebd39a73333cb6209f2ce4131dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 04/18] fix: cancel_plus returns empty for an invalid second
 operand

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 435742c..d028bb0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -44,6 +44,9 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representation const& x,
                                         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
+    if (!is_valid(x) || !is_valid(y))
+        return empty();
+
     return cancel_minus(x, neg(y));
 }
 
@@ -56,6 +59,9 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
+    if (!mpfr_bin_ieee754_flavor<T1>::is_valid(x) || !mpfr_bin_ieee754_flavor<T2>::is_valid(y))
+        return empty();
+
     return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
-- 
2.43.0


From f7e4467ead70b04f32c946616c481e1ade222242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 05/18] fix: keep the exception state and control word per
 thread, as documented

---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0


From 83a88cb0fd25e899a3fea07b2143bde546b33730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 06/18] fix: decoration's is_valid is defined in a header and
 must be inline

---
 p1788/decoration/decoration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 8f18f59..502a9e6 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -64,7 +64,7 @@ enum class decoration : uint8_t
 
 
 
-bool is_valid(decoration dec)
+inline bool is_valid(decoration dec)
 {
     switch(dec)
     {
-- 
2.43.0


From 8d464696a2d2b78e6a27aafbcf5bc4ecbe41477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 07/18] fix: stream manipulators use the same stream slots in
 every translation unit

---
 p1788/io/io_manip.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index 84327b7..f445b2b 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -34,8 +34,17 @@ namespace p1788
 namespace io
 {
 
+// Allocates the ID number N, once for the whole program and not once per translation unit
+template<int N>
+inline int manip_id()
+{
+    static int const id = std::ios_base::xalloc();
+    return id;
+}
+
+
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id =  std::ios_base::xalloc();
+int const text_representation_manip_id = manip_id<0>();
 
 enum text_representation_flags
 {
@@ -77,7 +86,7 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id =  std::ios_base::xalloc();
+int const string_width_manip_id = manip_id<1>();
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -105,7 +114,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id =  std::ios_base::xalloc();
+int const representation_manip_id = manip_id<2>();
 
 enum representation_flags
 {
@@ -170,7 +179,7 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id =  std::ios_base::xalloc();
+int const number_representation_manip_id = manip_id<3>();
 
 enum number_representation_flags
 {
@@ -235,7 +244,7 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id =  std::ios_base::xalloc();
+int const width_manip_id = manip_id<4>();
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -265,7 +274,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id =  std::ios_base::xalloc();
+int const precision_manip_id = manip_id<5>();
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -294,7 +303,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id =  std::ios_base::xalloc();
+int const special_representation_manip_id = manip_id<6>();
 
 enum interval_special_representation_flags
 {
@@ -347,7 +356,7 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id =  std::ios_base::xalloc();
+int const punctuation_manip_id = manip_id<7>();
 
 enum interval_punctuation_flags
 {
@@ -389,7 +398,7 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id =  std::ios_base::xalloc();
+int const uncertain_exponent_manip_id = manip_id<8>();
 
 enum uncertain_exponent_flags
 {
@@ -434,7 +443,7 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id =  std::ios_base::xalloc();
+int const dec_manip_id = manip_id<9>();
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -481,7 +490,7 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id =  std::ios_base::xalloc();
+int const overlapping_manip_id = manip_id<10>();
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From d6598b88839a912ff227b96e92c622e9118491d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 08/18] fix: reductions release the storage of their elements

---
 p1788/reduction/reduction.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..a8ab1d2 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -140,7 +140,10 @@ public:
     ~reduction_sum_op()
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
+        {
             mpfr_clear(*b);
+            delete[] *b;    // new of the array type mpfr_t
+        }
 
         delete[] tab_;
 
-- 
2.43.0


From 7ba43a61f3c79211174680ae7da8d931a6652bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 09/18] fix: reduction.hpp, mpfr_var.hpp and mpfr_util.hpp
 include the headers they need

---
 p1788/reduction/reduction.hpp | 1 +
 p1788/util/mpfr_util.hpp      | 1 +
 p1788/util/mpfr_var.hpp       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a8ab1d2..50e0fc7 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -28,6 +28,7 @@
 #define LIBIEEEP1788_P1788_REDUCTION_REDUCTION_HPP
 
 #include <iterator>
+#include <limits>
 #include <initializer_list>
 
 #include "p1788/util/mpfr_var.hpp"
diff --git a/p1788/util/mpfr_util.hpp b/p1788/util/mpfr_util.hpp
index 1efaf16..a3e62b7 100644
--- a/p1788/util/mpfr_util.hpp
+++ b/p1788/util/mpfr_util.hpp
@@ -23,6 +23,7 @@
 #ifndef LIBIEEEP1788_P1788_UTIL_EFT_HPP
 #define LIBIEEEP1788_P1788_UTIL_EFT_HPP
 
+#include <limits>
 #include <utility>
 
 #include "p1788/util/mpfr_var.hpp"
diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 490d93d..894429e 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -28,6 +28,7 @@
 
 #define MPFR_USE_INTMAX_T
 
+#include <cstdint>
 #include <mpfr.h>
 #include <string>
 
-- 
2.43.0


From 296c403468d8e79e5a53b4d36cb65cdfbf66b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 10/18] fix: sum_sqr and dot form the products in an exponent
 range that holds them

---
 p1788/reduction/reduction.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 50e0fc7..5c45894 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -87,12 +87,20 @@ class reduction_sum_op
         std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::has_denorm == std::denorm_present
         > mpfr_var;
 
+    // Typedef for a wrapper class whose exponent range contains the exact product of any two elements
+    typedef p1788::util::mpfr_var<
+    std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2,
+        (std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent - std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits) * 2,
+        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::max_exponent * 2,
+        false
+        > mpfr_var_prod;
+
 public:
 
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        mpfr_var_prod::setup();
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -104,7 +112,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the range of the result
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -116,7 +129,7 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        mpfr_var_prod::setup();
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -128,7 +141,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round to the range of the result
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From 50d8605354a7357d31933c46d1d9ae1aaa2ef346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 11/18] fix: size the buffer of get_str from the text it is to
 hold

---
 p1788/util/mpfr_var_impl.hpp | 72 +-----------------------------------
 1 file changed, 1 insertion(+), 71 deletions(-)

diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..ce2e47d 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,97 +234,27 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
@@ -342,7 +272,7 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
         {
             delete[] data;
         };
-    } buffer(req_string_width);
+    } buffer(mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_));     // number of characters needed
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-- 
2.43.0


From 33c0533ddf151ff1e633addf4c101ea549173a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 12/18] fix: mul_rev: zero bounds due to an unbounded factor
 are not attained

---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 3dd334c..a57af16 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -1535,12 +1535,15 @@ mpfr_bin_ieee754_flavor<T>::mul_rev(mpfr_bin_ieee754_flavor<T>::representation c
     int t_fl, t_fu, t_sl, t_su;
     auto tmp = mul_rev_to_pair(t_fl, t_fu, t_sl, t_su, b, c);
 
-    if ((tmp.first.second == x.first && t_fu != 0)
-            || (x.second == tmp.first.first && t_fl != 0))
+    // zero is never attained if it is not in c, i.e. zero bounds due to an unbounded b are open
+    bool z = is_member(0.0, c);
+
+    if ((tmp.first.second == x.first && (t_fu != 0 || (x.first == 0.0 && !z)))
+            || (x.second == tmp.first.first && (t_fl != 0 || (x.second == 0.0 && !z))))
         tmp.first = empty();
 
-    if ((tmp.second.second == x.first && t_su != 0)
-            || (x.second == tmp.second.first && t_sl != 0))
+    if ((tmp.second.second == x.first && (t_su != 0 || (x.first == 0.0 && !z)))
+            || (x.second == tmp.second.first && (t_sl != 0 || (x.second == 0.0 && !z))))
         tmp.second = empty();
 
 
-- 
2.43.0


From 0711382e0ec12178336a0495be1ca2049afcab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 13/18] fix: pown_rev: zero is never attained for negative
 exponents

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a57af16..59c8e70 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -336,6 +336,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
     }
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDD);
     if (t == 0) t = t1;
+    if (mpfr_zero_p(x())) return -1;    // limit for an unbounded c, never attained
     if (p == -1 || t == 0) return t;
     mpfr_var cm;
     for (;;)
@@ -372,6 +373,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
     }
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDU);
     if (t == 0) t = t1;
+    if (mpfr_zero_p(x())) return 1;    // limit for an unbounded c, never attained
     if (p == -1 || t == 0) return t;
     mpfr_var cm;
     for (;;)
-- 
2.43.0


From 1ce7a4482fad2509d3acc26926207bbe88853d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 14/18] fix: pown_rev: drop a part of the preimage that touches
 the argument only at an inexact bound

---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 59c8e70..aff4aaf 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -453,23 +453,24 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
 
             mpfr_var::setup();
 
-            if (c.first <= 0.0)
-            {
-                mpfr_var cu(c.second, MPFR_RNDU);
+            mpfr_var cl(c.first <= 0.0 ? 0.0 : c.first, MPFR_RNDD);
+            mpfr_var cu(c.second, MPFR_RNDU);
 
-                cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
 
-                return intersection(x, representation(-cu.template get<T>(MPFR_RNDU), cu.template get<T>(MPFR_RNDU)));
-            }
+            representation rp = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+            representation rn = neg(rp);
 
-            mpfr_var cl(c.first, MPFR_RNDD);
-            mpfr_var cu(c.second, MPFR_RNDU);
+            if ((rp.second == x.first && t_u != 0)
+                    || (x.second == rp.first && t_l != 0))
+                rp = empty();
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            if ((rn.second == x.first && t_l != 0)
+                    || (x.second == rn.first && t_u != 0))
+                rn = empty();
 
-            return convex_hull(intersection(x, representation(-cu.template get<T>(MPFR_RNDU), -cl.template get<T>(MPFR_RNDD))),
-                               intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU))));
+            return convex_hull(intersection(rp, x), intersection(rn, x));
         }
     }
     else    // odd
@@ -548,10 +549,16 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
             mpfr_var cl(c.first, MPFR_RNDD);
             mpfr_var cu(c.second, MPFR_RNDU);
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+
+            representation r = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+
+            if ((r.second == x.first && t_u != 0)
+                    || (x.second == r.first && t_l != 0))
+                r = empty();
 
-            return intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU)));
+            return intersection(x, r);
         }
     }
 }
-- 
2.43.0


From ee47da4c3af32c0c6172b1c6e00e243de2c7f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 15/18] fix: mixed-type mul_rev_to_pair: return the neutral
 result for invalid and NaI operands

---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From 0bde0649571f6afc247fa9c3231a54a2cf03256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 16/18] fix: tan: recognise a pole by the sign of cos, not by
 the order of the rounded tangents

---
 ...mpfr_bin_ieee754_flavor_elem_func_impl.hpp | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..8be56ef 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2613,12 +2613,18 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     if (mpfr_cmp(w(), pi()) > 0)
         return entire();
 
-    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
-    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+    // w <= pi, therefore x contains a pole if and only if cos has different signs at the bounds
+    mpfr_var cl;
+    mpfr_var cu;
+    mpfr_cos(cl(), xl(), MPFR_RNDN);
+    mpfr_cos(cu(), xu(), MPFR_RNDN);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    if (mpfr_sgn(cl()) != mpfr_sgn(cu()))
         return entire();
 
+    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
+    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+
     return representation(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
 }
 
@@ -2672,12 +2678,18 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     if (mpfr_cmp(w(), pi()) > 0)
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
-    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
-    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+    // w <= pi, therefore x contains a pole if and only if cos has different signs at the bounds
+    mpfr_var cl;
+    mpfr_var cu;
+    mpfr_cos(cl(), xl(), MPFR_RNDN);
+    mpfr_cos(cu(), xu(), MPFR_RNDN);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
+    if (mpfr_sgn(cl()) != mpfr_sgn(cu()))
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
+    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
+    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+
     representation bare(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
     p1788::decoration::decoration dec  = std::min(x.second,
                                          is_common_interval(bare) ? p1788::decoration::decoration::com :
-- 
2.43.0


From 61a23dfc930589401d86f37292fa2641ee75bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 17/18] fix: uncertain output read only a part of the exponent
 of the midpoint and failed when the exponents of the bounds differ by more
 than the number of digits

---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..e21e5ea 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -186,7 +186,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 tmp_m.erase(tmp_m.size() - prec - 1, 1);
 
                 // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
+                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1)) : 0;
                 int ulp_l = 0;
                 int ulp_u = 0;
                 if (p_l >= 0)
@@ -198,6 +198,9 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
 
                     if (exp_l < 0)
                     {
+                        // add leading zeros such that there are enough digits
+                        tmp_l.insert(tmp_l[0] == '-' ? 1 : 0, -exp_l, '0');
+
                         // remove trailing digits and remind ulp if necessary
                         ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
                         tmp_l.resize(tmp_l.size() + exp_l);
@@ -221,6 +224,9 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                     tmp_u.erase(tmp_u.size() - prec - 1, 1);
                     if (exp_u > 0)
                     {
+                        // add leading zeros such that there are enough digits
+                        tmp_u.insert(tmp_u[0] == '-' ? 1 : 0, exp_u, '0');
+
                         // remove trailing digits and remind ulp if necessary
                         ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
                         tmp_u.resize(tmp_u.size() - exp_u);
@@ -280,6 +286,9 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 {
                     if (exp < 0)
                     {
+                        // add leading zeros such that there are enough digits
+                        tmp_l.insert(tmp_l[0] == '-' ? 1 : 0, -exp, '0');
+
                         // remove trailing digits and adjust ulps if necessary
                         ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
                         tmp_l.resize(tmp_l.size() + exp);
@@ -292,6 +301,9 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 {
                     if (exp > 0)
                     {
+                        // add leading zeros such that there are enough digits
+                        tmp_u.insert(tmp_u[0] == '-' ? 1 : 0, exp, '0');
+
                         // remove trailing digits and adjust ulps if necessary
                         ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
                         tmp_u.resize(tmp_u.size() - exp);
-- 
2.43.0


From 1542c3e59e6e87875d3bf94ddf5ea601e1d19dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 18/18] fix: numbers with a leading plus sign were rejected by
 the text input of intervals

---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 55 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index e21e5ea..f6d5211 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -681,6 +681,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[2].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -739,6 +743,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[4].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -796,7 +804,14 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                // number string
+                                std::string q_str = match[6].str() + "/" + match[7].str();
+
+                                // remove plus sign, it is not accepted by gmp
+                                if (q_str[0] == '+')
+                                    q_str.erase(0, 1);
+
+                                int i = mpq_set_str(q.var_, q_str.c_str(), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -841,6 +856,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[12].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -888,6 +907,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[14].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -931,7 +954,14 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                // number string
+                                std::string q_str = match[16].str() + "/" + match[17].str();
+
+                                // remove plus sign, it is not accepted by gmp
+                                if (q_str[0] == '+')
+                                    q_str.erase(0, 1);
+
+                                int i = mpq_set_str(ql.var_, q_str.c_str(), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -953,6 +983,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[21].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -1000,6 +1034,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // number string
                                 std::string n_str = match[23].str();
 
+                                // remove plus sign, it is not accepted by gmp
+                                if (n_str[0] == '+')
+                                    n_str.erase(0, 1);
+
                                 // compute precision and remove point
                                 int p = n_str.find('.');
                                 if (p >= 0)
@@ -1043,7 +1081,14 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                // number string
+                                std::string q_str = match[25].str() + "/" + match[26].str();
+
+                                // remove plus sign, it is not accepted by gmp
+                                if (q_str[0] == '+')
+                                    q_str.erase(0, 1);
+
+                                int i = mpq_set_str(qu.var_, q_str.c_str(), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1216,6 +1261,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                         // number string
                         std::string m_str = match[1].str();
 
+                        // remove plus sign, it is not accepted by gmp
+                        if (m_str[0] == '+')
+                            m_str.erase(0, 1);
+
                         // compute precision and remove point
                         int p = m_str.find('.');
                         if (p >= 0)
-- 
2.43.0

