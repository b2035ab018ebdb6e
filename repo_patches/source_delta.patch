From 10a76da256b16fce18361fed9ff5330fa7530f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 01/27] fix: integer floor_divide and remainder without
 rounding through double

For 64-bit operands above 2^53 the quotient was rounded, e.g.
(2^53 + 1) // 1 == 2^53 and (2^53 + 1) % 1 == 1.
---
 lib/common/include/scipp/common/numeric.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..ca41c24 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -63,10 +63,22 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    // Stay in integers, double cannot represent all int64 values.
+    using C = std::common_type_t<T, U>;
+    const C dividend = a;
+    const C divisor = b;
+    if (divisor == 0)
+      return 0;
+    if (divisor == -1) // min() / -1 overflows, wrap around instead of trapping
+      return static_cast<C>(0 - static_cast<std::make_unsigned_t<C>>(dividend));
+    const C quotient = dividend / divisor;
+    return (dividend % divisor != 0 && (dividend < 0) != (divisor < 0))
+               ? quotient - 1
+               : quotient;
+  } else {
     return floor(a / b);
+  }
 }
 
 // Remainder like Python's __mod__, complementary to floor_divide.
@@ -74,7 +86,10 @@ template <class T, class U> auto remainder(const T &a, const U &b) {
   if constexpr (std::is_floating_point_v<T> || std::is_floating_point_v<U>) {
     return b == 0 ? NAN : a - floor_divide(a, b) * b;
   } else {
-    return b == 0 ? 0 : a - floor_divide(a, b) * b;
+    using C = std::common_type_t<T, U>;
+    // Avoid the wrap-around of floor_divide for b == -1.
+    return b == 0 || b == -1 ? C{0}
+                             : static_cast<C>(a - floor_divide(a, b) * b);
   }
 }
 
-- 
2.43.0


From d3867be47ba54336e6b1ab285008439626d9472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/27] fix: memory_bounds missed elements for zero and
 negative strides

---
 .../include/scipp/common/index_composition.h     | 16 +++++++---------
 lib/python/numpy.h                               |  6 +++++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..71ebc7e 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -42,18 +42,16 @@ constexpr auto flat_index_from_strides(ForwardIt1 strides_it,
 template <class ForwardIt1, class ForwardIt2>
 constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
                              ForwardIt2 strides_it) noexcept {
-  if (shape_it == shape_end) {
-    // Scalars are one element wide in memory, this would not be handled
-    // correctly by the code below.
-    return std::pair{scipp::index{0}, scipp::index{1}};
-  }
   scipp::index begin = 0;
-  scipp::index end = 0;
+  scipp::index end = 1; // scalars are one element wide in memory
   for (; shape_it != shape_end; ++shape_it, ++strides_it) {
-    if (*strides_it < 0)
-      begin += *shape_it * *strides_it;
+    if (*shape_it == 0) // there are no elements
+      return std::pair{scipp::index{0}, scipp::index{0}};
+    const scipp::index last = (*shape_it - 1) * *strides_it;
+    if (last < 0)
+      begin += last;
     else
-      end += *shape_it * *strides_it;
+      end += last;
   }
   return std::pair{begin, end};
 }
diff --git a/lib/python/numpy.h b/lib/python/numpy.h
index 30e4a18..389d584 100644
--- a/lib/python/numpy.h
+++ b/lib/python/numpy.h
@@ -218,7 +218,11 @@ template <class T> auto memory_begin_end(const py::buffer_info &info) {
   auto *end = static_cast<const T *>(info.ptr);
   const auto [begin_offset, end_offset] =
       memory_bounds(info.shape.begin(), info.shape.end(), info.strides.begin());
-  return std::pair{begin + begin_offset, end + end_offset};
+  if (begin_offset == end_offset)
+    return std::pair{begin, end};
+  // Strides are in bytes, i.e., end_offset is one past the *first* byte of the
+  // last item.
+  return std::pair{begin + begin_offset, end + end_offset + info.itemsize - 1};
 }
 
 template <class T, class View>
-- 
2.43.0


From c9703982a78ff65086a447b316679ee376d0ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/27] fix: keep value of pow when operand has variances

---
 lib/core/include/scipp/core/value_and_variance.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/core/include/scipp/core/value_and_variance.h b/lib/core/include/scipp/core/value_and_variance.h
index 77d8fd8..af08fc1 100644
--- a/lib/core/include/scipp/core/value_and_variance.h
+++ b/lib/core/include/scipp/core/value_and_variance.h
@@ -69,11 +69,13 @@ constexpr auto operator-(const ValueAndVariance<T> a) noexcept {
 
 template <class B, class E>
 constexpr auto pow(const ValueAndVariance<B> base, const E exponent) noexcept {
-  const auto pow_1 = numeric::pow(base.value, exponent - 1);
-  const auto var_factor = std::abs(exponent) * pow_1;
-  const auto pow_0 = (base.value == 0 && exponent == 0  ? 1
-                      : base.value == 0 && exponent > 0 ? 0
-                                                        : pow_1 * base.value);
+  const auto pow_0 = numeric::pow(base.value, exponent);
+  using T = std::decay_t<decltype(pow_0)>;
+  // x^0 is constant, the general formula yields 0 * inf for x == 0.
+  const T var_factor =
+      exponent == 0
+          ? T{0}
+          : std::abs(exponent) * numeric::pow(base.value, exponent - 1);
   return ValueAndVariance{pow_0, var_factor * var_factor * base.variance};
 }
 
-- 
2.43.0


From 92eb3c125ddf40f16d13d20e8a6c14dd95f03d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 04/27] fix: islinspace and isarange accepted descending steps

---
 lib/common/include/scipp/common/numeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index ca41c24..39ce426 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -34,7 +34,7 @@ template <class Range> bool islinspace(const Range &range) {
     const auto delta = range[1] - range[0];
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b - a != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +47,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b - a != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From ec3659037574c52a7981b3be807fe1cf2073ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 05/27] fix: exclusive scan computed by subtraction loses
 precision

---
 lib/core/include/scipp/core/element/cumulative.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/cumulative.h b/lib/core/include/scipp/core/element/cumulative.h
index dbb3cfa..0478c46 100644
--- a/lib/core/include/scipp/core/element/cumulative.h
+++ b/lib/core/include/scipp/core/element/cumulative.h
@@ -17,8 +17,9 @@ constexpr auto exclusive_scan = overloaded{
     arg_list<double, std::tuple<double, float>, int64_t, int32_t>,
     transform_flags::expect_no_variance_arg<0>,
     transform_flags::expect_no_variance_arg<1>, [](auto &sum, auto &x) {
+      const auto exclusive = sum;
       sum += x;
-      x = sum - x;
+      x = exclusive;
     }};
 
 constexpr auto inclusive_scan = overloaded{
-- 
2.43.0


From 0cce2593a68a93bfc294ea1ee7f36012213dce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 06/27] fix: names of internal bin dimensions

---
 lib/units/dim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..424e80a 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -24,6 +24,9 @@ const auto &builtin_ids() {
       {"<internal_histogram>", Dim::InternalHistogram},
       {"<internal_sort>", Dim::InternalSort},
       {"<internal_accumulate>", Dim::InternalAccumulate},
+      {"<internal_bin_coarse>", Dim::InternalBinCoarse},
+      {"<internal_bin_fine>", Dim::InternalBinFine},
+      {"<internal_subbin>", Dim::InternalSubbin},
       {"energy", Dim::Energy},
       {"event", Dim::Event},
       {"group", Dim::Group},
-- 
2.43.0


From 06346708426c27f179a84ef23a7ed78337569285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 07/27] fix: concurrent creation of dimension labels could
 assign two ids

---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 424e80a..387cb75 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -61,6 +61,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label since the read lock was released.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From 284158a503390bb8b6588dd7ad65b7847bfb3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 08/27] fix: pow of a unit truncated exponents exceeding int

---
 lib/units/unit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/units/unit.cpp b/lib/units/unit.cpp
index 3b18cb6..5f624aa 100644
--- a/lib/units/unit.cpp
+++ b/lib/units/unit.cpp
@@ -3,6 +3,7 @@
 /// @file
 /// @author Simon Heybrock
 /// @author Neil Vaytet
+#include <limits>
 #include <regex>
 #include <stdexcept>
 
@@ -157,7 +158,9 @@ Unit sqrt(const Unit &a) {
 Unit pow(const Unit &a, const int64_t power) {
   if (a == none)
     return a;
-  if (llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
+  if (power < std::numeric_limits<int>::min() ||
+      power > std::numeric_limits<int>::max() ||
+      llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
     throw except::UnitError("Unsupported unit as result of pow: pow(" +
                             a.name() + ", " + std::to_string(power) + ").");
   return Unit{a.underlying().pow(static_cast<int>(power))};
-- 
2.43.0


From 7e66cccef403e65b9100343319d3de16cc42f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 09/27] fix: exact conversion between integer units without
 rounding through double

---
 lib/core/include/scipp/core/element/to_unit.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 81e3a29..54e231a 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -31,7 +31,9 @@ template <class T, class U> T safe_cast(const U x) {
 
 template <class T>
 constexpr auto round = [](const auto x) {
-  if constexpr (std::is_integral_v<T>)
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<decltype(x)>)
+    return static_cast<T>(x); // exact, double cannot represent all int64 values
+  else if constexpr (std::is_integral_v<T>)
     return safe_cast<T>(x < 0 ? x - 0.5 : x + 0.5);
   else
     return static_cast<T>(x);
-- 
2.43.0


From 991eeeeac8b6c8f21c37c3cf5a38098c89d1d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 10/27] fix: product of affine and linear transform

---
 lib/core/include/scipp/core/spatial_transforms.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..1f140df 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,13 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+// Eigen's own product would transform the columns of the matrix as if they were
+// points, i.e., add the translation to each of them.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  return lhs * Eigen::Affine3d(rhs);
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From 077e4f2550a69479c0a7feeac598687d25420436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 11/27] fix: concat of sizes with zero extent along the
 concatenated dimension

---
 lib/core/sizes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/sizes.cpp b/lib/core/sizes.cpp
index 17c1716..f1a61a4 100644
--- a/lib/core/sizes.cpp
+++ b/lib/core/sizes.cpp
@@ -173,7 +173,9 @@ Sizes Sizes::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
 
 namespace {
 Sizes concat2(const Sizes &a, const Sizes &b, const Dim dim) {
-  Sizes out = a.contains(dim) ? a.slice({dim, 0}) : a;
+  Sizes out = a;
+  if (out.contains(dim))
+    out.erase(dim);
   out.set(dim, (a.contains(dim) ? a[dim] : 1) + (b.contains(dim) ? b[dim] : 1));
   return out;
 }
-- 
2.43.0


From 336495a10cab44eb9411385bb481be3227050d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 12/27] fix: flattening of broadcast dimensions in MultiIndex

---
 lib/core/multi_index.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..6ca9717 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,13 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
+    // Must be evaluated for every dim since it updates strides_for_contiguous.
+    const bool contiguous =
+        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
+                         strides_for_contiguous, strides...);
     if (dim_read > non_flattenable_dim &&
         dim_write > 0 && // need to write at least one inner dim
-        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+        contiguous) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From d9e3a4ed610452f81644bc344f6da0851c73d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 13/27] fix: islinspace accepted NaN and infinite values

---
 lib/common/include/scipp/common/numeric.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 39ce426..72c3bbe 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -25,10 +25,13 @@ template <class Range> bool islinspace(const Range &range) {
     constexpr int32_t ulp = 4;
     const T epsilon = std::numeric_limits<T>::epsilon() *
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
+    // NaN and infinite values are never evenly spaced.
+    if (!std::isfinite(delta) || !std::isfinite(epsilon))
+      return false;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                return !(std::abs(std::abs(b - a) - delta) <=
+                                         epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
-- 
2.43.0


From c9c60743cc0a3876da81e25b981c34dcace28377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 14/27] fix: rebin with datetime edges dropped partial overlaps

---
 lib/core/include/scipp/core/element/rebin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..4cefe64 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -46,7 +46,8 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          // Widths are integers if edges are time points
+          const auto scale = numeric::true_divide(delta, owidth);
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
-- 
2.43.0


From 3894c851da7579fe13bbfafcfdebc1b368a9841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:12 +0000
Subject: [PATCH 15/27] fix: variances of rebin depended on memory layout

---
 lib/variable/rebin.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..9d2037a 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -39,8 +39,16 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
     const auto owidth = std::abs(xo_high - xo_low);
-    slice += oldT.slice({dim, iold}) *
-             ((delta / owidth) * (slice.unit() / oldT.unit()));
+    const auto scale = (delta / owidth) * (slice.unit() / oldT.unit());
+    const auto in = oldT.slice({dim, iold});
+    auto part = in * scale;
+    if (part.has_variances()) {
+      // Same as in core::element::rebin, variances of counts are split linearly
+      auto part_variances = variances(in) * scale;
+      part_variances.setUnit(part.unit());
+      part.setVariances(part_variances);
+    }
+    slice += part;
   };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
-- 
2.43.0


From 99b1ed1fe77f8c2391c3f37ffded28cbc890a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:23 +0000
Subject: [PATCH 16/27] fix: bin assigned events to wrong bins when an inner
 existing dimension had a coord

---
 lib/dataset/bin.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..ac37a9f 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -341,7 +341,7 @@ public:
         // depending on parameters of the input.
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
-            bin_coords.at(dim).dims().contains(dim) &&
+            is_outermost(dim) && bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const bool histogram =
@@ -438,6 +438,18 @@ public:
   void erase(const Dim dim) { m_dims.addInner(dim, 1); }
 
 private:
+  /// True if all output dims outside `dim` have length 1. Offsets for input
+  /// bins can otherwise not represent a contiguous range of output bins.
+  [[nodiscard]] bool is_outermost(const Dim dim) const {
+    for (const auto &label : m_dims.labels()) {
+      if (label == dim)
+        break;
+      if (m_dims[label] != 1)
+        return false;
+    }
+    return true;
+  }
+
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
-- 
2.43.0


From b121acb5ac1a75701dfd3efa3be3fd10514cc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:13 +0000
Subject: [PATCH 17/27] fix: bin read out of bounds when a coord depends on
 several dimensions

---
 lib/dataset/bin.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index ac37a9f..f850bfe 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -342,6 +342,7 @@ public:
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             is_outermost(dim) && bin_coords.at(dim).dims().contains(dim) &&
+            varies_only_along(bin_coords.at(dim), dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const bool histogram =
@@ -450,6 +451,16 @@ private:
     return true;
   }
 
+  /// True if `dim` is the only output dim of `coord`. The scan of subbin sizes
+  /// along any other output dim requires that their offsets do not decrease.
+  [[nodiscard]] bool varies_only_along(const Variable &coord,
+                                       const Dim dim) const {
+    const auto &labels = coord.dims().labels();
+    return std::all_of(labels.begin(), labels.end(), [&](const Dim label) {
+      return label == dim || !m_dims.contains(label);
+    });
+  }
+
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
-- 
2.43.0


From ffbcbd912a65f236f9ebf689cc2bf876953d7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 18/27] fix: bin dropped events when an existing dimension had
 a coord without edges

---
 lib/dataset/bin.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index f850bfe..1448c51 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -343,11 +343,12 @@ public:
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             is_outermost(dim) && bin_coords.at(dim).dims().contains(dim) &&
             varies_only_along(bin_coords.at(dim), dim) &&
+            // A coord without edges does not bound coords of events
+            (is_bin_edges(bin_coords.at(dim), indices, dim) ||
+             !coords.count(dim)) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
-          const bool histogram =
-              bin_coord.dims()[dim] ==
-              (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
+          const bool histogram = is_bin_edges(bin_coord, indices, dim);
           auto begin =
               begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
           auto end = histogram ? end_edge(right_edge(bin_coord), key)
@@ -451,6 +452,12 @@ private:
     return true;
   }
 
+  [[nodiscard]] static bool
+  is_bin_edges(const Variable &coord, const Variable &indices, const Dim dim) {
+    const auto &dims = indices.dims();
+    return coord.dims()[dim] == (dims.contains(dim) ? dims[dim] : 1) + 1;
+  }
+
   /// True if `dim` is the only output dim of `coord`. The scan of subbin sizes
   /// along any other output dim requires that their offsets do not decrease.
   [[nodiscard]] bool varies_only_along(const Variable &coord,
-- 
2.43.0


From ab80aa6ef173fcac9677b0ae47db387cf20c336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 19/27] fix: unit of var and nanvar of data arrays was not
 squared

---
 src/scipp/core/reduction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/reduction.py b/src/scipp/core/reduction.py
index e00d44a..9924c8f 100644
--- a/src/scipp/core/reduction.py
+++ b/src/scipp/core/reduction.py
@@ -927,7 +927,13 @@ def _reduce_with_numpy(
         else:
             res = np_func(x.values, axis=axis, **kwargs)
         return concepts.rewrap_reduced_data(
-            x, array(dims=out_dims, values=res, unit=x.unit), dim
+            x,
+            array(
+                dims=out_dims,
+                values=res,
+                unit=unit_func(x.unit) if x.unit is not None else None,
+            ),
+            dim,
         )
     raise TypeError(f'invalid argument of type {type(x)} to {sc_func}')
 
-- 
2.43.0


From 457ea9861e4d3bc2511ec9a4e12e9a4f59145c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 20/27] fix: automatic bounds of binning a dataset ignored the
 maximum of earlier items

---
 src/scipp/core/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index 4f8c191..ea781ea 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -298,7 +298,7 @@ def _get_coord(x: Variable | DataArray | Dataset, name: str) -> Variable:
         for da in x.values():
             c = _get_coord(da, name)
             cmin = c.min() if cmin is None else min(cmin, c.min())  # type: ignore[call-overload]
-            cmax = c.max() if cmax is None else max(cmin, c.max())  # type: ignore[call-overload]
+            cmax = c.max() if cmax is None else max(cmax, c.max())  # type: ignore[call-overload]
         coord = concat([cmin, cmax], dim='dummy')  # type: ignore[type-var]
     else:
         event_coord = x.bins.deprecated_meta.get(name) if x.bins is not None else None
-- 
2.43.0


From 1b9352e2e5f9e38b5ffa86e7c19cafe9228e4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:13 +0000
Subject: [PATCH 21/27] fix: dimension renaming of transform_coords counted
 colors of nodes with several parents repeatedly

---
 src/scipp/coords/transform_coords.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scipp/coords/transform_coords.py b/src/scipp/coords/transform_coords.py
index adc20db..aef1b7b 100644
--- a/src/scipp/coords/transform_coords.py
+++ b/src/scipp/coords/transform_coords.py
@@ -310,9 +310,8 @@ def _color_dims(graph: Graph, dim_coords: set[str]) -> dict[str, dict[str, Fract
     }
     for dim in dim_coords:
         colors[dim][dim] = Fraction(1, 1)
-        depth_first_stack = [dim]
-        while depth_first_stack:
-            coord = depth_first_stack.pop()
+        # A node passes on its color only once all of its parents have been processed.
+        for coord in graph.nodes_topologically():
             children = tuple(graph.children_of(coord))
             for child in children:
                 # test for produced dim coords
@@ -320,7 +319,6 @@ def _color_dims(graph: Graph, dim_coords: set[str]) -> dict[str, dict[str, Fract
                     colors[child][dim] += colors[coord][dim] * Fraction(
                         1, len(children)
                     )
-            depth_first_stack.extend(children)
 
     return colors
 
-- 
2.43.0


From 0c0542ae5d5f1f04030d2314554d6d2911e4ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:14 +0000
Subject: [PATCH 22/27] fix: from_dict dropped the name of data arrays

---
 src/scipp/compat/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scipp/compat/dict.py b/src/scipp/compat/dict.py
index d500bba..637a2e2 100644
--- a/src/scipp/compat/dict.py
+++ b/src/scipp/compat/dict.py
@@ -198,4 +198,6 @@ def _dict_to_data_array(d):
             for name, item in d[key].items():
                 out[key][name] = _dict_to_variable(item)
     out["data"] = _dict_to_variable(d["data"])
+    if "name" in d:
+        out["name"] = d["name"]
     return DataArray(**out)
-- 
2.43.0


From cbccd5f9ba932c5bea1e8d42faa3d811b5d116e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:14 +0000
Subject: [PATCH 23/27] fix: from_dict failed for unaligned vectors and linear
 transforms

---
 src/scipp/compat/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scipp/compat/dict.py b/src/scipp/compat/dict.py
index 637a2e2..ec50374 100644
--- a/src/scipp/compat/dict.py
+++ b/src/scipp/compat/dict.py
@@ -172,6 +172,8 @@ def _dict_to_variable(d):
     else:
         init = {'vector3': vector, 'linear_transform3': linear_transform}
     make_var = init.get(str(out.get('dtype', None)), Variable)
+    if not out.get('aligned', True):
+        make_var = Variable  # the functions above cannot set the alignment
     if make_var != Variable:
         if not out['dims']:
             out['value'] = out['values']
-- 
2.43.0


From 673d7c613914d26807039fcea754dae6ef26c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:35 +0000
Subject: [PATCH 24/27] fix: copy assignment of a null element_array gave an
 empty one

---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..37d3843 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = element_array(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From a51f0c318c18582b1d5782c208b0d2a9ba4f1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:53 +0000
Subject: [PATCH 25/27] fix: ViewIndex raises for more than NDIM_OP_MAX
 dimensions instead of writing past its arrays

---
 lib/core/view_index.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core/view_index.cpp b/lib/core/view_index.cpp
index 57493cf..6d7e55f 100644
--- a/lib/core/view_index.cpp
+++ b/lib/core/view_index.cpp
@@ -4,6 +4,9 @@
 /// @author Jan-Lukas Wynen
 #include "scipp/core/view_index.h"
 
+#include <stdexcept>
+#include <string>
+
 #include "scipp/core/except.h"
 
 namespace scipp::core {
@@ -19,6 +22,10 @@ ViewIndex::ViewIndex(const Dimensions &target_dimensions,
     const auto size = target_dimensions.size(dim_read);
     rewind = size * stride;
     if (delta != 0 || stride == 0) {
+      if (dim_write >= NDIM_OP_MAX)
+        throw std::runtime_error("Operations with more than " +
+                                 std::to_string(NDIM_OP_MAX) +
+                                 " dimensions are not supported.");
       m_shape[dim_write] = size;
       m_delta[dim_write] = delta;
       m_strides[dim_write] = stride;
-- 
2.43.0


From bcc547891ae0dbda9cac7b642845a5c81b71d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 26/27] fix: escape names, units, strings and dtypes in HTML
 and SVG output

---
 src/scipp/visualization/formatting_datagroup_html.py | 2 +-
 src/scipp/visualization/show.py                      | 2 +-
 src/scipp/visualization/table.py                     | 9 +++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/scipp/visualization/formatting_datagroup_html.py b/src/scipp/visualization/formatting_datagroup_html.py
index 947cf87..a25e7a4 100644
--- a/src/scipp/visualization/formatting_datagroup_html.py
+++ b/src/scipp/visualization/formatting_datagroup_html.py
@@ -101,7 +101,7 @@ def _summarize_atomic_variable(var: Any, name: str, depth: int = 0) -> str:
         preview = escape(_format_multi_dim_data(var))
     elif isinstance(var, np.ndarray):
         parent_obj_str = "numpy"
-        preview = f"shape={var.shape}, dtype={var.dtype}, values="
+        preview = escape(f"shape={var.shape}, dtype={var.dtype}, values=")
         preview += escape(_format_multi_dim_data(var))
 
     elif preview == '' and hasattr(var, "__str__"):
diff --git a/src/scipp/visualization/show.py b/src/scipp/visualization/show.py
index b742a19..6fa40cf 100644
--- a/src/scipp/visualization/show.py
+++ b/src/scipp/visualization/show.py
@@ -257,7 +257,7 @@ class VariableDrawer:
                     class="sc-name" style="font-size:#normal-font;{weight}"> \
                     {escape(brief_title)}</text>'
 
-            svg += f'<title>{title}({escape(details)})</title>'
+            svg += f'<title>{escape(str(title))}({escape(details)})</title>'
         else:
             svg = f'<text x="{x_pos}" y="{y_pos}" \
                     class="sc-name" style="font-size:#small-font;{weight}"> \
diff --git a/src/scipp/visualization/table.py b/src/scipp/visualization/table.py
index 2a29323..ff7d601 100644
--- a/src/scipp/visualization/table.py
+++ b/src/scipp/visualization/table.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 
+from html import escape
 from typing import Any
 
 import numpy as np
@@ -17,7 +18,7 @@ def _string_in_cell(v: Variable) -> str:
     if v.bins is not None:
         return f'len={v.value.shape}'
     if v.dtype not in (DType.float32, DType.float64):
-        return str(v.value)
+        return escape(str(v.value))
     if v.variance is None:
         return f'{v.value:.3f}'
     err = np.sqrt(v.variance)
@@ -32,10 +33,10 @@ def _string_in_cell(v: Variable) -> str:
 
 
 def _var_name_with_unit(name: str, var: Variable) -> str:
-    out = f'<span style="font-weight: bold;">{name}</span>'
+    out = f'<span style="font-weight: bold;">{escape(name)}</span>'
     unit = var.bins.unit if var.bins is not None else var.unit
     if unit is not None:
-        out += ' [𝟙]' if unit == 'dimensionless' else f' [{unit}]'  # noqa: RUF001
+        out += ' [𝟙]' if unit == 'dimensionless' else f' [{escape(str(unit))}]'  # noqa: RUF001
     return out
 
 
@@ -118,7 +119,7 @@ def _make_entries_header(ds: Dataset) -> str:
         out += f'<th colspan="{len(ds.coords)}"></th>'
     for name, da in sorted(ds.items()):
         ncols = 1 + len(da.masks) + len(da.deprecated_attrs)
-        out += f'<th style="{CENTER}" colspan="{ncols}">{name}</th>'
+        out += f'<th style="{CENTER}" colspan="{ncols}">{escape(name)}</th>'
     out += '</tr>'
     return out
 
-- 
2.43.0


From bb5fef9207f0317cba0da500e38b25b5daee097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 27/27] fix: keep the name of a data array when renaming dims

---
 lib/dataset/data_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..ab48ffd 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -211,7 +211,7 @@ DataArray DataArray::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
   return DataArray(m_data->rename_dims(names, fail_on_unknown),
                    m_coords->rename_dims(names, false),
                    m_masks->rename_dims(names, false),
-                   m_attrs->rename_dims(names, false));
+                   m_attrs->rename_dims(names, false), m_name);
 }
 
 DataArray DataArray::as_const() const {
-- 
2.43.0

