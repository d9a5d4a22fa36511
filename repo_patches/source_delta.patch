From 2600a4d48d0754fcc92394a63a499e194f4500cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 01/24] fix: keep every limb when division by a small integer
 shifts the result left

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..ceae1ea 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -962,7 +962,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
-- 
2.43.0


From a7ae7a01e2916b159c9eb2ead375afa978444487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 02/24] fix: adding infinity or NaN to a finite number gives
 infinity or NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index ceae1ea..ef7bab8 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -419,6 +419,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return operator=(v);
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -429,7 +434,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
-  if(iszero())
+  if(v.isinf() || iszero())
   {
     return operator=(v);
   }
-- 
2.43.0


From 677efac2a19d9099aea85af214c680345f7aa609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 03/24] fix: subtracting a number from itself in place no
 longer doubles it

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index ef7bab8..6da0bfb 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -664,6 +664,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Here, negating *this would also negate v.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From f34338e05e17af9397a5772352a5f4c50f158f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 04/24] fix: quotient of equal magnitudes takes the right sign
 and 0/0 is NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 6da0bfb..bdd3324 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -801,15 +801,18 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 {
   const auto u_and_v_are_finite_and_identical =
     (   isfinite()
+     && (!iszero())
      && (my_fpclass == v.my_fpclass)
      && (my_exp     == v.my_exp)
      && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));
 
   if(u_and_v_are_finite_and_identical)
   {
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 4d34bfee5ff85be9950325eb95832707e1e43c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 05/24] fix: negative number divided by unsigned zero gives
 negative infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index bdd3324..cec851e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -942,8 +942,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
-                          : -std::numeric_limits<e_float>::infinity());
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
 
       return *this;
     }
-- 
2.43.0


From 2e709552685cd054c813609d3ddd2d842d8f9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 06/24] fix: isone() recognises exactly one, and the smallest
 normalised value still parses

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 21 +++-----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index cec851e..8feb477 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1316,7 +1316,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
@@ -2060,24 +2060,9 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From 4fba42032398fafbbbb0d6c38bc839b5407c9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 07/24] fix: finite results outside the exponent range become
 infinity or zero in every arithmetic operation

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 51 ++++++++------------
 libs/e_float/src/e_float/efx/e_float_efx.h   |  2 +
 2 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 8feb477..c6ff210 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -648,7 +648,15 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
   // Check for underflow.
   if(iszero()) { return (*this = ef::zero()); }
 
-  // Check for overflow.
+  // Check for overflow or underflow.
+  check_range();
+
+  return *this;
+}
+
+void efx::e_float::check_range()
+{
+  // Replace a finite, non-zero value that is out of range with infinity or zero.
   if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
      && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
     )
@@ -658,8 +666,10 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
                                 : -std::numeric_limits<e_float>::infinity());
   }
-
-  return *this;
+  else if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+  {
+    *this = ef::zero();
+  }
 }
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
@@ -709,35 +719,6 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     return (*this = ef::zero());
   }
 
-  // Check for overflow or underflow.
-  const auto u_exp_is_neg = (  my_exp < static_cast<std::int64_t>(0));
-  const auto v_exp_is_neg = (v.my_exp < static_cast<std::int64_t>(0));
-
-  if(u_exp_is_neg == v_exp_is_neg)
-  {
-    // Get the unsigned base-10 exponents of *this and v and...
-    const std::int64_t u_exp = ((!u_exp_is_neg) ?   my_exp : static_cast<std::int64_t>(  -my_exp));
-    const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
-
-    // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
-
-    if(b_result_is_out_of_range)
-    {
-      if(u_exp_is_neg)
-      {
-        *this = ef::zero();
-      }
-      else
-      {
-        *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
-                                    : -std::numeric_limits<e_float>::infinity());
-      }
-
-      return *this;
-    }
-  }
-
   // Set the exponent of the result.
   my_exp += v.my_exp;
 
@@ -794,6 +775,8 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
+  check_range();
+
   return *this;
 }
 
@@ -906,6 +889,8 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
   // Set the sign.
   my_neg = b_neg;
 
+  check_range();
+
   return *this;
 }
 
@@ -994,6 +979,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
   // Set the sign of the result.
   my_neg = b_neg;
 
+  check_range();
+
   return *this; 
 }
 
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 5e5d0c8..d636768 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -248,6 +248,8 @@
       void from_unsigned_long_long(const unsigned long long u);
       void from_long_double       (const long double l);
 
+      void check_range();
+
       std::int32_t cmp_data(const array_type& vd) const;
 
       static std::uint32_t mul_loop_uv (std::uint32_t* const u, const std::uint32_t* const v, const std::int32_t p);
-- 
2.43.0


From c65e262869895be49cc8b5be9dc0b60d654292e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 08/24] fix: mixed arithmetic with the most negative 64-bit
 integer

---
 libs/e_float/src/e_float/e_float_base.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..c37d23c 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long(static_cast<unsigned long long>(0) - static_cast<unsigned long long>(n));
     negate();
   }
   else
@@ -113,14 +113,23 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  if(n < static_cast<signed long long>(0))
+  {
+    add_unsigned_long_long(static_cast<unsigned long long>(0) - static_cast<unsigned long long>(n));
+  }
+  else
+  {
+    sub_unsigned_long_long(static_cast<unsigned long long>(n));
+  }
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0) - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
@@ -141,7 +150,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0) - static_cast<unsigned long long>(n));
 
   if(b_neg)
   {
-- 
2.43.0


From e963de4b9ee38173614cac1afd9fced75cf88143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 09/24] fix: numeric_limits::lowest() is the most negative
 finite value

---
 libs/e_float/src/e_float/e_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..833c2f4 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -75,7 +75,7 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static       e_float  lowest       () noexcept { return e_float(ef::value_max()).negate(); }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
-- 
2.43.0


From 63202cf75aa7bd417345cf86b5b74cd4c5ea6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 10/24] fix: construction from mantissa and exponent handles
 mantissas of zero and of exact powers of ten

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c6ff210..f548b68 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -44,7 +44,7 @@ efx::e_float::e_float(const double mantissa,
 
   if(mantissa_is_iszero)
   {
-    operator=((exponent == static_cast<std::int64_t>(0)) ? ef::one() : ef::zero());
+    operator=(ef::zero());
     return;
   }
 
@@ -53,7 +53,7 @@ efx::e_float::e_float(const double mantissa,
   double d = ((!b_neg) ? mantissa : -mantissa);
   std::int64_t  e = exponent;
 
-  while(d > 10.0) { d /= 10.0; ++e; }
+  while(d >= 10.0) { d /= 10.0; ++e; }
   while(d <  1.0) { d *= 10.0; --e; }
 
   auto shift = static_cast<std::int32_t>(e % static_cast<std::int32_t>(ef_elem_digits10));
-- 
2.43.0


From fb44dae40b0a9b126a88ab42ff213275eec11169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 11/24] fix: assigning to a moved-from number restores its
 storage

---
 libs/e_float/src/utility/util_dynamic_array.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..52a2c74 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,17 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elems == nullptr)
+          {
+            // The storage of *this is empty or has been moved away.
+            swap(dynamic_array(other));
+          }
+          else
+          {
+            std::copy(other.elems,
+                      other.elems + (std::min)(elem_count, other.elem_count),
+                      elems);
+          }
         }
 
         return *this;
-- 
2.43.0


From 23f83aba2221868d62e02de17f76d13f7f62f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 12/24] fix: self-move assignment keeps the storage

---
 libs/e_float/src/utility/util_dynamic_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 52a2c74..36ad52e 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -155,6 +155,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 7637baa4452a6694c1bc4815c3c81f7d7f357d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 13/24] fix: ordering of storage containers takes their lengths
 into account

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 36ad52e..8cad1bb 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -303,12 +303,10 @@
         }
         else
         {
-          const size_type count = (std::min)(lhs.size(), rhs.size());
-
           return std::lexicographical_compare(lhs.cbegin(),
-                                              lhs.cbegin() + count,
+                                              lhs.cend(),
                                               rhs.cbegin(),
-                                              rhs.cbegin() + count);
+                                              rhs.cend());
         }
       }
     }
-- 
2.43.0


From a6ebf11871f81d2111221c6adf6c44fc6746cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 14/24] fix: keep NaN when multiplying by a signed integer

The overflow check compared NaN with max(), which is true, and turned
NaN into infinity.
---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index c37d23c..9c3913c 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -137,7 +137,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From 20d7c23c8c292918f255770640c134265e472cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 15/24] fix: square root keeps iterating until the working
 precision covers all digits

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index f548b68..7589250 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1155,7 +1155,7 @@ efx::e_float& efx::e_float::calculate_sqrt()
 
     const std::int64_t order_check = order() - iteration_term.order();
 
-    if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 4))
+    if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 2))
        && (order_check > static_cast<std::int64_t>(ef::tolerance() / 2))
       )
     {
-- 
2.43.0


From f27e7474f0307c413bb66c629f60f4d2011cc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 16/24] fix: long double values beyond the range of double are
 converted, not turned into infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7589250..8bac14e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,9 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  if(!(std::isfinite)(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=((std::isnan)(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From c43d16262dc164751df6a98dc9c843210d8f0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 17/24] fix: integer and decimal part use every stored digit,
 as isint does

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 8bac14e..879fac0 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1606,7 +1606,7 @@ efx::e_float efx::e_float::extract_integer_part() const
     // Thus the integer part is zero.
     return ef::zero();
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>((ef_elem_number - 1) * ef_elem_digits10))
   {
     // The number is too large to resolve the integer part.
     // Thus it is already a pure integer part.
@@ -1647,7 +1647,7 @@ efx::e_float efx::e_float::extract_decimal_part() const
     // Thus it is already a pure decimal part.
     return *this;
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>((ef_elem_number - 1) * ef_elem_digits10))
   {
     // The number is too large to have a decimal part.
     // Thus the decimal part is zero.
-- 
2.43.0


From 9068ee074126b1a60229fb6d3607516d0adfa2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 18/24] fix: fixed notation of numbers below the last printed
 position

---
 libs/e_float/src/e_float/e_float_base.cpp    | 9 ++++++++-
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 9c3913c..bfcfe42 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -218,6 +218,7 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
 
   // Ascertain the number of digits requested from e_float.
   std::size_t the_number_of_digits_i_want_from_e_float = static_cast<std::size_t>(0U);
+  bool        has_digits_in_output                     = true;
 
   const std::size_t max10_plus_one = static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10 + 1);
 
@@ -249,6 +250,9 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
       const std::int64_t exp_plus_one_plus_my_precision = static_cast<std::int64_t>(exp_plus_one + static_cast<std::int64_t>(os_precision));
 
       the_number_of_digits_i_want_from_e_float = (std::min)(static_cast<std::size_t>((std::max)(exp_plus_one_plus_my_precision, static_cast<std::int64_t>(0))), max10_plus_one);
+
+      // The number can be so small that even its leading digit has no influence on the output.
+      has_digits_in_output = (exp_plus_one_plus_my_precision >= static_cast<std::int64_t>(0));
     }
   }
 
@@ -262,7 +266,10 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   }
 
   // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(has_digits_in_output)
+  {
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 879fac0..c4854d9 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1770,7 +1770,13 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     // Truncate the string
     str = str.substr(static_cast<std::size_t>(0U), number_of_digits);
 
-    if(round >= static_cast<std::uint32_t>(5U))
+    if((round >= static_cast<std::uint32_t>(5U)) && str.empty())
+    {
+      // No digits have been requested, but the number rounds up to one unit of the next order.
+      str = "1";
+      ++the_exp;
+    }
+    else if(round >= static_cast<std::uint32_t>(5U))
     {
       std::size_t ix = static_cast<std::size_t>(str.length() - 1U);
 
-- 
2.43.0


From 9d15e98f679c2fc7014f7fa0539e84912d7556b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 19/24] fix: default notation of numbers below one prints all
 significant digits requested

---
 libs/e_float/src/e_float/e_float_base.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index bfcfe42..6ad91a8 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -256,13 +256,13 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     }
   }
 
-  // If the float field is not set, reduce the number of digits requested
-  // from e_float such that it neither exceeds the ostream's precision
-  // nor e_float's max_digits10.
+  // If the float field is not set, then the ostream's precision is the number
+  // of significant digits, regardless of the notation, not to exceed e_float's
+  // max_digits10.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
+    has_digits_in_output                     = true;
   }
 
   // Extract the rounded output string with the desired number of digits.
@@ -411,7 +411,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision)), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From fdc8977d1d78ee672ccd229236296011837ba0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 20/24] fix: showpoint with an integer part wider than the
 precision no longer throws

---
 libs/e_float/src/e_float/e_float_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 6ad91a8..fd69488 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -514,7 +514,7 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      const std::size_t u_pad = ((os_precision > len_non_zero_part) ? static_cast<std::size_t>(os_precision - len_non_zero_part) : static_cast<std::size_t>(0U));
 
       str.insert(str.cend(), u_pad, static_cast<char>('0'));
     }
@@ -522,7 +522,9 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    // The integer part alone can already be wider than the precision.
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+    const std::size_t u_pad      = ((os_precision > len_digits) ? static_cast<std::size_t>(os_precision - len_digits) : static_cast<std::size_t>(0U));
 
     str.insert(str.cend(), u_pad, static_cast<char>('0'));
   }
-- 
2.43.0


From 2f2c7cb90245340785bb5ab15221d2dd36a65aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 21/24] fix: fmod stays below the divisor with the sign of the
 dividend, also next to integer quotients and for divisors of the other sign

---
 .../functions/elementary/elementary_math.cpp    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..038224e 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -87,9 +87,22 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  const e_float n = ef::integer_part(v1 / v2);
 
-  return v1 - (n * v2);
+  e_float r = v1 - (n * v2);
+
+  // The quotient is rounded. Its integer part can be off by one
+  // if the exact quotient lies next to an integer.
+  if(ef::fabs(r) >= ef::fabs(v2))
+  {
+    r -= (ef::isneg(v1) ? -ef::fabs(v2) : ef::fabs(v2));
+  }
+  else if((!ef::iszero(r)) && (ef::isneg(r) != ef::isneg(v1)))
+  {
+    r += (ef::isneg(v1) ? -ef::fabs(v2) : ef::fabs(v2));
+  }
+
+  return r;
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From 200d1130df858550a767342a18e9d6e24e7785d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 22/24] fix: reading a number into an object that holds
 infinity or NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c4854d9..a08e1a5 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1815,6 +1815,9 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // Start from zero, regardless of the previous value (which can also be inf or NaN).
+  operator=(ef::zero());
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
-- 
2.43.0


From e6ae6821c95aa815725ef8e9ca666e70c5f3bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 23/24] fix: decimal exponents beyond the range of 64-bit
 integers saturate

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index a08e1a5..9b517b7 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1830,6 +1830,11 @@ bool efx::e_float::rd_string(const char* const s)
     // Remove the exponent part from the string.
     my_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos + 1U)));
 
+    // Leave headroom for the adjustments of the exponent below.
+    constexpr std::int64_t exp_limit = (std::numeric_limits<std::int64_t>::max)() / 2;
+
+    my_exp = (std::max)((std::min)(my_exp, exp_limit), static_cast<std::int64_t>(-exp_limit));
+
     str = str.substr(static_cast<std::size_t>(0U), pos);
   }
 
-- 
2.43.0


From f64d5dad775ececb845101b333581a2a1b87c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 24/24] fix: strings above the largest number are read as
 infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 9b517b7..2a9278d 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -2052,7 +2052,8 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // Check for overflow...
-  if(my_exp > std::numeric_limits<e_float>::max_exponent10)
+  if(   (my_exp >  std::numeric_limits<e_float>::max_exponent10)
+     || ((my_exp == std::numeric_limits<e_float>::max_exponent10) && (get_order_exact() > std::numeric_limits<e_float>::max_exponent10)))
   {
     const bool b_result_is_neg = my_neg;
 
-- 
2.43.0

