From f490e29f60527f102220fd75a918f5c65879a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 01/15] fix: rational ControlPoint(indices...) used only the
 last index

The comma fold collapsed the index pack to its last entry, so every
multi-index access of a rational spline with more than one parametric
dimension returned another control point.
---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..5c00fe7 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From ada7a53d9d211975f867c3e05b42ace236c52e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 02/15] fix: rational ForwardEvaluate ignored the weight
 function

The sum of the weighted control points was returned without the division
by the weight function, so ForwardEvaluate and Evaluate disagreed.
---
 src/rational_bezier_spline.inc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 5c00fe7..7e3ec5a 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -206,15 +206,17 @@ constexpr PhysicalPointType RationalBezierSpline<
 
   // Initialize values
   PhysicalPointType evaluation_point{};
+  ScalarType weight_eval{};
 
   for (IndexingType i_basis_function{0}; i_basis_function < factors.size();
        i_basis_function++) {
     evaluation_point += factors[i_basis_function] *
                         GetWeightedControlPoints()[i_basis_function];
+    weight_eval += factors[i_basis_function] * GetWeights()[i_basis_function];
   }
 
-  // Add up the individual contributions
-  return evaluation_point;
+  // Divide the sum of contributions by the value of the weight function
+  return evaluation_point / weight_eval;
 }
 
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From ffbcac7c59f2e7f00df025af7e5fb0ded9f9435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 03/15] fix: spline subtraction did not terminate for a
 higher-order rhs

operator- compared against the degrees of (*this), which never change,
while it elevated the return value, and only subtracted the first control
points of the elevated spline.
---
 src/bezier_spline.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..4572539 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -656,7 +656,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
@@ -666,8 +666,9 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
       rhs.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-  // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  // Subtract control points
+  for (IndexingType i_ctps{};
+       i_ctps < return_spline.GetNumberOfControlPoints(); i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 94bca20ae432d1808bb67daefee72697f81dd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 04/15] fix: composition with a group of splines did not
 compile

The overload asked the std::vector of inner splines for
FitsIntoUnitCube() and therefore failed on every instantiation. Each
member of the group is checked by its own composition.
---
 src/bezier_spline.inc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 4572539..98e3454 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1059,18 +1059,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
-  }
-
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
-
+  // Dimensions and unit cube are checked for every member of the group by the
+  // individual compositions
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
   }
-- 
2.43.0


From a51f5df347aaa600d398c83ee0e82275d09da628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 05/15] fix: rational-rational compositions accepted inner
 splines outside the unit cube

Compose and ComposeSensitivity of a rational spline with a rational inner
spline bypassed the check every other composition performs.
---
 src/rational_bezier_spline.hpp | 6 ++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..c959026 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,12 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 7e3ec5a..e4b3122 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -787,6 +787,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From 269fbe3923ef81ddfc0df47762f43e68a819b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 06/15] fix: in-place operators read arguments they had already
 overwritten

Scaling a point or a spline by, or shifting a spline by, one of its own
entries changed the argument half way through the loop.
---
 src/bezier_spline.inc          | 20 ++++++++++++++------
 src/point.hpp                  |  4 +++-
 src/rational_bezier_spline.inc |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 98e3454..f46706d 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -502,8 +502,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy, as scalar might reference (part of) a control point
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -513,8 +515,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy, as point_shift might reference one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -534,8 +538,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy, as point_shift might reference one of the control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
@@ -814,15 +820,17 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copies, as both arguments might reference one of the control points
+  const PhysicalPointType shift{transposition};
+  const PhysicalPointType scaling{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * scaling;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * scaling[i_dim];
       }
     }
   }
diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..f211ed8 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy, as scale might reference one of the components
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index e4b3122..baa6782 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -576,11 +576,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
+  // Copy, as point_shift might reference one of the control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -605,11 +607,13 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                ScalarType>
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
+  // Copy, as point_shift might reference one of the control points
+  const PhysicalPointType shift{point_shift};
   // Add up contributions to control points with weights
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From 9b8bee485fb6e1f5e6adcb069e0aba2fc071a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 07/15] fix: derivative splines of an order above the degree

Subtracting the order from the degree wrapped around, so the derivative
of e.g. a constant direction asked for an absurd amount of memory. Such
derivatives vanish; the result is the zero spline of degree zero in that
direction.
---
 src/bezier_spline.inc          | 12 ++++++++++++
 src/rational_bezier_spline.inc | 21 +++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index f46706d..cb735f9 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -245,6 +245,18 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
+
+  // Derivatives of an order higher than the degree vanish identically
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    if (orders[i_para_dim] > degrees[i_para_dim]) {
+      for (IndexingType i{}; i < parametric_dimension; i++) {
+        new_degrees[i] -= std::min(orders[i], degrees[i]);
+      }
+      return BezierSpline{new_degrees};
+    }
+  }
+
   // Create a copy of control points (later be used for in place operations)
   auto new_control_points = GetControlPoints();
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index baa6782..2fe6f65 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -530,15 +530,20 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // The derivative of a constant does not lose an order
+      if (derivative.GetDegrees()[i_para_dim] > 0) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
       derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
+          numerator,
           // v^2
           derivative.GetWeightFunctionSpline() *
               derivative.GetWeightFunctionSpline());
-- 
2.43.0


From c9bbb7c1f4af276d460536361a78b3085a451758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 08/15] fix: IntPower truncated intermediate results to int

Results beyond the range of int were wrong for wider types, types
narrower than int did not compile, and <type_traits> was not included.
---
 src/utils/algorithms/int_power.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..2d95923 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_ALGORITHMS_INT_POWER_HPP
 #define UTILS_ALGORITHMS_INT_POWER_HPP
 
+#include <type_traits>
+
 namespace bezman::utils::algorithms {
 
 /**
@@ -37,7 +39,7 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType tmp = IntPower<IntegralType>(base, power / 2);
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 64a29f782424cc234941e8b64fb7ecf6efa4f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 09/15] fix: Base64 encoding read past the end of the data

The second and third byte of the last group were read without checking
that they exist (leaking into the encoded text), and empty vectors were
indexed.
---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From e6bf975881fe648e90822965c41649433c12f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 10/15] fix: Base64 decoding counted padding as data

Padded text of one- and two-byte types decoded to additional values, and
incomplete trailing values were written past the end of the result.
---
 src/utils/base64.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..63ed357 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,21 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
+    // Trailing padding characters do not represent data
+    std::size_t number_of_bytes{number_of_groups * 3};
+    for (std::size_t i{base64string.size()};
+         i > 0 && base64string[i - 1] == '=' && number_of_bytes > 0; i--) {
+      number_of_bytes--;
+    }
+    const std::size_t number_of_output_values{number_of_bytes /
                                               length_of_entry};
+    number_of_bytes = number_of_output_values * length_of_entry;
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -219,21 +226,21 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<unsigned char>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
+      if (buffer[1] != 255 && i_group * 3 < number_of_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From 681eaf03b5772c67795516011904cb25e59adb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 11/15] fix: acos and asin of nested differentiation types

The branches for non-arithmetic scalars did not compile, and acos
returned the cosine as its value.
---
 src/utils/computational_differentiation/algo_diff_type.inc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..734ff94 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -410,8 +410,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -429,7 +429,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From fa2617a975294483eb242b5304deddb9a208adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 12/15] fix: power zero of a differentiable value at zero was
 not a number

The value was computed as x * x^(p-1), i.e. 0 * inf for x = p = 0.
---
 .../algo_diff_type.inc                           | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 734ff94..ccd19ed 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -261,17 +261,23 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     const AlgoDiffType<Scalar, numberOfDerivatives>& base,
     const Scalar& power) {
-  Scalar tmp;
+  Scalar value, factor;
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
-    tmp = std::pow(base.v_, power - 1.0);
+    value = std::pow(base.v_, power);
+    // The derivative of x^0 also vanishes for x = 0, where x^-1 is infinite
+    factor = power == Scalar{} ? Scalar{}
+                               : static_cast<Scalar>(
+                                     power * std::pow(base.v_, power - 1.0));
   } else {
-    tmp = pow(base.v_, power - 1.0);
+    const Scalar tmp{pow(base.v_, power - 1.0)};
+    value = base.v_ * tmp;
+    factor = power * tmp;
   }
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
-  result_value.v_ *= tmp;
+  result_value.v_ = value;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
-    result_value.d_[i] *= power * tmp;
+    result_value.d_[i] *= factor;
   }
   return result_value;
 }
-- 
2.43.0


From 62b588c1e45c20204617bf2d92507cc0fd48529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 13/15] fix: dividing a nested differentiable value by a scalar
 did not compile

---
 src/utils/computational_differentiation/algo_diff_type.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index ccd19ed..0491ca0 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -185,7 +185,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b = 1. / b;
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
-- 
2.43.0


From b37cdf2ba427770fe73fd1c9e9ee71271bdd48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 14/15] fix: product of binomial coefficients overflowed in
 high-order mixed rational derivatives

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 2fe6f65..66e4187 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -306,7 +306,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                          derivative_order_indexwise_RHS))
         continue;
       // Precompute Product of binomial coefficients
-      std::size_t binom_fact{1};
+      ScalarType binom_fact{1};
       for (std::size_t i_pd{}; i_pd < parametric_dimension; i_pd++) {
         binom_fact *= utils::FastBinomialCoefficient::choose(
             derivative_order_indexwise_LHS[i_pd],
@@ -414,7 +414,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                          derivative_order_indexwise_RHS))
         continue;
       // Precompute Product of binomial coefficients
-      std::size_t binom_fact{1};
+      ScalarType binom_fact{1};
       for (std::size_t i_pd{}; i_pd < parametric_dimension; i_pd++) {
         binom_fact *= utils::FastBinomialCoefficient::choose(
             derivative_order_indexwise_LHS[i_pd],
-- 
2.43.0


From 7c3380096d3befed6db1bdcd4e1e4ad2a6e57d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 15/15] fix: keep log files open after a terminating error,
 reopening discarded their content

---
 src/utils/logger.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..a319234 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,9 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Write buffered messages to the files in order to save error files (the
+    // streams stay open, as opening a file again would discard its content)
+    flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -375,6 +376,15 @@ class Logger {
 #endif
   }
 
+  /// Flush File-Streams to save log files
+  void flush() {
+#ifdef ENABLE_LOGGING
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
+#endif
+  }
+
   /// Output Level 39 {: user_info, error, warning with timestamps}
   unsigned int outputlevel_{39};
 
-- 
2.43.0

