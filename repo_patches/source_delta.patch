From e99b261b6432b467af200a40eac2c62d50b720b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 01/45] fix: nearest node search on a circular axis crosses the
 seam

---
 include/fes/axis.hpp | 18 ++++++++++++++----
 src/library/axis.cpp |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/fes/axis.hpp b/include/fes/axis.hpp
index 363c9cd..270cc78 100644
--- a/include/fes/axis.hpp
+++ b/include/fes/axis.hpp
@@ -114,13 +114,13 @@ class Axis : public std::enable_shared_from_this<Axis> {
   FES_MATH_CONSTEXPR auto find_index(const double coordinate,
                                      const bool bounded = false) const noexcept
       -> int64_t {
-    auto index = static_cast<int64_t>(
-        std::round((normalize_coordinate(coordinate) - start_) / step_));
+    auto index = nearest_index(normalize_coordinate(coordinate));
     if (index < 0) {
-      return bounded ? 0 : -1;
+      // On a circular axis, the closest node is on the other side of the seam.
+      return is_circular_ ? this->size_ - 1 : (bounded ? 0 : -1);
     }
     if (index >= this->size_) {
-      return bounded ? this->size_ - 1 : -1;
+      return is_circular_ ? 0 : (bounded ? this->size_ - 1 : -1);
     }
     return index;
   }
@@ -188,6 +188,16 @@ class Axis : public std::enable_shared_from_this<Axis> {
   auto initialize(const Eigen::Ref<const Eigen::VectorXd>& values,
                   const double epsilon = 1e-6) -> void;
 
+  /// Returns the index of the node closest to the coordinate on the unbounded
+  /// regular axis, i.e. possibly outside the range [0, size()).
+  ///
+  /// @param[in] coordinate The normalized coordinate.
+  /// @return The index of the closest node.
+  FES_MATH_CONSTEXPR auto nearest_index(const double coordinate) const noexcept
+      -> int64_t {
+    return static_cast<int64_t>(std::round((coordinate - start_) / step_));
+  }
+
   /// Returns the normalized value of the coordinate with the respect to the
   /// axis definition.
   ///
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..c3f26fb 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -99,11 +99,11 @@ auto Axis::find_indices(double coordinate) const
   coordinate = normalize_coordinate(coordinate);
 
   auto length = size_;
-  auto i0 = find_index(coordinate, false);
+  auto i0 = nearest_index(coordinate);
 
   /// If the value is outside the circle, then the value is between the last
   /// and first index.
-  if (i0 == -1) {
+  if (i0 < 0 || i0 >= length) {
     return is_circular_ ? optional_t(std::make_tuple(
                               static_cast<int64_t>(length - 1), 0LL))
                         : optional_t();
-- 
2.43.0


From 39678a9e21803af6bad6721154f6c0955b82ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 02/45] fix: longitudes crossing the seam between their first
 two points

---
 src/library/axis.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index c3f26fb..cf2c2cb 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -40,6 +40,13 @@ auto Axis::normalize_longitude(const Eigen::VectorXd& points)
   auto monotonic = true;
   auto ascending = points.size() < 2 ? true : points[0] < points[1];
 
+  // If the first two points are on either side of the seam, the next ones give
+  // the direction of the axis.
+  if (points.size() > 2 &&
+      std::abs(points[2] - points[1]) < std::abs(points[1] - points[0])) {
+    ascending = points[1] < points[2];
+  }
+
   for (auto ix = Eigen::Index(1); ix < points.size(); ++ix) {
     monotonic =
         ascending ? points[ix - 1] < points[ix] : points[ix - 1] > points[ix];
-- 
2.43.0


From bacd28a23d3a3223ff92f36618093ca7d9424176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 03/45] fix: interpolation in the cell that crosses the seam of
 a descending axis

---
 include/fes/tidal_model/cartesian.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..0e649be 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -137,9 +137,21 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  // Offsets, from the first node, of the second node and of the point.
+  auto dx = x2 - x1;
+  auto x = point.lon() - x1;
+  if (lon_.is_circular()) {
+    // Take the shortest way around the circle, as the cell may cross the seam
+    // of the axis in both directions.
+    dx = std::remainder(dx, 360.0);
+    x = std::remainder(x, 360.0);
+    if (lon_.size() == 2 && std::signbit(x) != std::signbit(dx)) {
+      dx = -dx;
+    }
+  }
+
+  auto wxy = detail::math::bilinear_weights(x1 + x, point.lat(), x1, y1,
+                                            x1 + dx, y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From 82c9a389779bae91d7427c5e7fe8aa86f38900ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 04/45] fix: a grid position without any contributing node is
 undefined

---
 include/fes/detail/math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..de1ac9a 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,12 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  if (!(std::abs(sum_w) > 0)) {
+    // No defined point contributes to the result.
+    n = 0;
+    return result * std::numeric_limits<double>::quiet_NaN();
+  }
+  return result / sum_w;
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From 09d627154fefd2b0c80ec030031744e9fa2ca615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 05/45] fix: quality of a grid interpolation is that of the
 least defined constituent

---
 include/fes/tidal_model/cartesian.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 0e649be..66d05e8 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -5,6 +5,8 @@
 /// @file include/fes/tidal_model/cartesian.hpp
 /// @brief Cartesian tidal model
 #pragma once
+#include <algorithm>
+#include <cmath>
 #include <limits>
 #include <memory>
 #include <sstream>
@@ -135,6 +137,8 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto x2 = lon_(i2);
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
+  // The quality reported is that of the least defined constituent.
+  auto n_min = this->data_.empty() ? int64_t{0} : int64_t{4};
   auto n = int64_t{0};
 
   // Offsets, from the first node, of the second node and of the point.
@@ -162,13 +166,14 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
         std::get<0>(wxy), std::get<1>(wxy), std::get<2>(wxy), std::get<3>(wxy),
         grid(i1, j1), grid(i1, j2), grid(i2, j1), grid(i2, j2), n);
     acc->emplace_back(item.first, value);
+    n_min = std::min(n_min, n);
   }
 
-  quality = (n == 4)   ? Quality::kInterpolated
-            : (n == 3) ? Quality::kExtrapolated3
-            : (n == 2) ? Quality::kExtrapolated2
-            : (n == 1) ? Quality::kExtrapolated1
-                       : Quality::kUndefined;
+  quality = (n_min == 4)   ? Quality::kInterpolated
+            : (n_min == 3) ? Quality::kExtrapolated3
+            : (n_min == 2) ? Quality::kExtrapolated2
+            : (n_min == 1) ? Quality::kExtrapolated1
+                           : Quality::kUndefined;
   return acc->values();
 }
 
-- 
2.43.0


From b389f4adb036257aedab8365dcb7c76a08dac7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 06/45] fix: known constituents are listed in the order of
 their identifiers

---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From c668712bd4165ca5175397b6d82e7fff6bdc7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 07/45] fix: a wave table refuses unknown names and ignores the
 case of names

---
 src/library/wave/table.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..dbd8ace 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -189,12 +189,17 @@ inline auto create_sparse_table(
     const std::vector<std::string>& known_constituents,
     const std::vector<std::string>& waves,
     std::vector<std::shared_ptr<Wave>>& table) -> void {
+  // An unknown name raises an exception, parsing is not case sensitive.
+  auto selection = std::vector<Constituent>();
+  selection.reserve(waves.size());
+  for (const auto& name : waves) {
+    selection.emplace_back(constituents::parse(name));
+  }
   for (const auto& constituent : known_constituents) {
+    const auto ident = constituents::parse(constituent);
     auto selected =
-        std::find(waves.begin(), waves.end(), constituent) != waves.end();
-    table.emplace_back(
-        selected ? Table::wave_factory(constituents::parse(constituent))
-                 : nullptr);
+        std::find(selection.begin(), selection.end(), ident) != selection.end();
+    table.emplace_back(selected ? Table::wave_factory(ident) : nullptr);
   }
 }
 
-- 
2.43.0


From 34226306e7452cde3f88c6322266ac3f9f8fd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 08/45] fix: access to a wave identifier out of the catalogue
 is reported

---
 include/fes/wave/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..ba43fa5 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -349,13 +349,13 @@ class Table {
   /// @return The wave
   inline auto sparse_access(const Constituent ident) const
       -> const std::shared_ptr<Wave>& {
-    const auto& result = waves_[static_cast<size_t>(ident)];
-    if (result == nullptr) {
+    const auto index = static_cast<size_t>(ident);
+    if (index >= waves_.size() || waves_[index] == nullptr) {
       auto msg = std::string("Wave ") + Table::wave_factory(ident)->name() +
                  " is not available";
       throw std::out_of_range(msg);
     }
-    return result;
+    return waves_[index];
   }
 };
 
-- 
2.43.0


From afd5c36f518dd80a150205adab1a8048d319c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 09/45] fix: phase corrections of compound constituents are
 those of their parents

---
 include/fes/wave.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..7d60aec 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
@@ -1063,13 +1063,13 @@ class MS4 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$4T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(MK_4)@f$</td></tr>
 /// </table>
 class MK4 : public Wave {
  public:
   constexpr MK4()
-      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
@@ -1213,13 +1213,13 @@ class _2SM6 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$6T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(M_2) ^times f(K_2)@f$</td></tr>
 /// </table>
 class MSK6 : public Wave {
  public:
   constexpr MSK6()
-      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
@@ -1253,19 +1253,19 @@ class M8 : public Wave {
              &angle::Astronomic::f_m24) {}
 };
 
-/// @brief @f$MSf = M_2 - S_2@f$
+/// @brief @f$MSf = S_2 - M_2@f$
 ///
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$2s - 2h@f$</td>
-/// <td>@f$2\xi - 2\nu@f$</td>
+/// <td>@f$-2\xi + 2\nu@f$</td>
 /// <td>@f$f(M_2) * f(S_2) = f(M_2)@f$</td></tr>
 /// </table>
 /// @warning Same frequency as MSf LP : 2s -2h
 class MSf : public Wave {
  public:
   constexpr MSf()
-      : Wave(kMSf, kLongPeriod, false, 0, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(kMSf, kLongPeriod, false, 0, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From 9b0ea68f1cd528d3cfee86389a5c171109a1bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 10/45] fix: signs of the last terms of the mean elongation of
 the moon (Meeus)

---
 include/fes/angle/astronomic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/angle/astronomic.hpp b/include/fes/angle/astronomic.hpp
index faa91a6..e2affe7 100644
--- a/include/fes/angle/astronomic.hpp
+++ b/include/fes/angle/astronomic.hpp
@@ -500,7 +500,7 @@ FES_MATH_CONSTEXPR auto Astronomic::meeus(const double epoch,
   // Jean Meeus, Astronomical Algorithms, 2nd ed., 1998., Willmann-Bell, Inc.
   // Formula 47.2, page 338.
   auto d = detail::math::horner(jc, 297.8501921, 445267.1114034, -0.0018819,
-                                -1.0 / 545868.0, 1.0 / 113065000.0);
+                                1.0 / 545868.0, -1.0 / 113065000.0);
 
   // Mean longitude of sun (h)
   h_ = s_ - d;
-- 
2.43.0


From 1a5175486d1f988e23db25b069ee5c29fc767ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 11/45] fix: angles are reduced inside the requested interval,
 remainders have the sign of the divisor

---
 include/fes/detail/math.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index de1ac9a..be61d23 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -202,7 +202,7 @@ template <typename T, typename std::enable_if<std::is_floating_point<T>::value,
                                               T>::type* = nullptr>
 constexpr auto remainder(const T& x, const T& y) noexcept -> T {
   auto result = std::remainder(x, y);
-  if (result < T(0) && y > T(0)) {
+  if ((result < T(0) && y > T(0)) || (result > T(0) && y < T(0))) {
     result += y;
   }
   return result;
@@ -217,7 +217,9 @@ constexpr auto remainder(const T& x, const T& y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T& x, const T& min = T(-180),
                                const T& circle = T(360)) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  const auto result = remainder(x - min, circle) + min;
+  // Rounding must not push the result out of the interval.
+  return result >= min + circle ? min : result;
 }
 
 /// True if a and b are two values identical to an epsilon.
-- 
2.43.0


From 83f2bc81c70322b388cf0df160912be687738c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 12/45] fix: the lines of M0 are removed from the equilibrium
 tide when M0 is dynamic

---
 src/library/wave/long_period_equilibrium.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/wave/long_period_equilibrium.cpp b/src/library/wave/long_period_equilibrium.cpp
index 60a876d..6b1cf1f 100644
--- a/src/library/wave/long_period_equilibrium.cpp
+++ b/src/library/wave/long_period_equilibrium.cpp
@@ -146,6 +146,10 @@ LongPeriodEquilibrium::LongPeriodEquilibrium()
 
 auto LongPeriodEquilibrium::disable_dynamic_wave(const Table& table) -> void {
   // Indexes are the same as those defined starting from l.389
+  if (table[kM0]->dynamic()) {
+    order2_.row(0).fill(0);
+    order2_.row(1).fill(0);
+  }
   if (table[kMm]->dynamic()) {
     order2_.row(29).fill(0);
     order2_.row(30).fill(0);
-- 
2.43.0


From 6c876818ad18eee463ada9697ea01bb9e71cdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 13/45] fix: reading operations of a wave table work on their
 own constituents

---
 src/library/wave/table.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index dbd8ace..3550263 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -393,7 +393,7 @@ auto Table::tide_from_tide_series(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = Table(constituents());
 
   for (auto ix = 0; ix < epoch.rows(); ++ix) {
     double tide = 0;
@@ -426,7 +426,7 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-    auto wt = Table(*this);
+    auto wt = Table(constituents());
     wt.compute_nodal_corrections(
         angle::Astronomic(formulae, epoch, leap_seconds));
 
@@ -459,7 +459,7 @@ auto Table::compute_nodal_modulations(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = Table(constituents());
 
   for (auto ix = 0; ix < epoch.size(); ++ix) {
     angles.update(epoch(ix), leap_seconds(ix));
-- 
2.43.0


From 7bb97b8c331b128002659e7d26f510a253c94986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 14/45] fix: the tide map starts from zero

---
 src/library/wave/table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3550263..c80526f 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -422,7 +422,8 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  auto result = Eigen::MatrixXd(
+      Eigen::MatrixXd::Zero(wave.cols(), wave.rows()));
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-- 
2.43.0


From 37e6863c8b8fff3cb4dc1dfd2c333f0087d07f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 15/45] fix: nothing to process or an unknown number of CPUs no
 longer divides by zero

---
 include/fes/detail/thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..fcd2434 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -31,8 +31,9 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Adjust num_threads to not exceed the size
   num_threads = std::min(num_threads, static_cast<size_t>(size));
 
-  // If num_threads is 1, no parallel computing code is used
-  if (num_threads == 1) {
+  // If num_threads is 1, no parallel computing code is used. It is 0 if there is
+  // nothing to do or if the number of CPUs is unknown.
+  if (num_threads <= 1) {
     callable(0, size);
     return;
   }
-- 
2.43.0


From c2c3a776fd1ede2c718b609ffb67d747cd70b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 16/45] fix: workers failing at the same time do not race on
 the exception reported

---
 include/fes/detail/thread.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index fcd2434..76b6318 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -40,7 +40,8 @@ void parallel_for(const Lambda& callable, const size_t size,
 
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
-  std::exception_ptr exception = nullptr;
+  // One exception per thread: threads failing together do not share memory.
+  std::vector<std::exception_ptr> exceptions(num_threads);
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -51,11 +52,11 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, ix, &exceptions]() {
       try {
         callable(start, end);
       } catch (...) {
-        exception = std::current_exception();
+        exceptions[ix] = std::current_exception();
       }
     });
     start += shift;
@@ -68,9 +69,11 @@ void parallel_for(const Lambda& callable, const size_t size,
     }
   }
 
-  // Rethrow the last exception caught
-  if (exception) {
-    std::rethrow_exception(exception);
+  // Rethrow the first exception caught
+  for (const auto& exception : exceptions) {
+    if (exception) {
+      std::rethrow_exception(exception);
+    }
   }
 }
 
-- 
2.43.0


From acafda12ebd7654ed12bdcd85d3515508dd2f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 17/45] fix: a thread that cannot be started is reported after
 the others have ended

---
 include/fes/detail/thread.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 76b6318..25a16c0 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,9 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <cstddef>
+#include <exception>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -52,13 +55,19 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, ix, &exceptions]() {
-      try {
-        callable(start, end);
-      } catch (...) {
-        exceptions[ix] = std::current_exception();
-      }
-    });
+    try {
+      threads.emplace_back([&callable, start, end, ix, &exceptions]() {
+        try {
+          callable(start, end);
+        } catch (...) {
+          exceptions[ix] = std::current_exception();
+        }
+      });
+    } catch (...) {
+      // The thread could not be started: wait for those already running
+      exceptions[ix] = std::current_exception();
+      break;
+    }
     start += shift;
   }
 
-- 
2.43.0


From 952146fc21f70f2a77245757c200860f878c4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 18/45] fix: angles of an undefined date or of another leap
 second count are not those of the previous date

---
 include/fes/abstract_tidal_model.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..9bcecba 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -55,7 +55,7 @@ class Accelerator {
   Accelerator(const angle::Formulae& formulae, const double time_tolerance,
               const size_t n_constituents)
       : time_tolerance_(time_tolerance),
-        angle_{std::numeric_limits<double>::max(),
+        angle_{std::numeric_limits<double>::quiet_NaN(),
                angle::Astronomic(formulae)} {
     values_.reserve(n_constituents);
   }
@@ -103,8 +103,12 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    // Undefined dates are never close to another one, and the same date with
+    // another number of leap seconds is another instant.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_) ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -118,6 +122,9 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief The number of leap seconds used to calculate the last angle.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From 67868d01304692c492314b865c94cfd658caa255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 19/45] fix: LGP1 models return the value of the vertex under
 the point

---
 include/fes/tidal_model/lgp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..aa869dd 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -369,13 +369,13 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 
   // In the case of extrapolation, if the projected point is one of the vertices
   // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // LGP codes of the vertices are at indexes 0, 1 and 2 for the LGP1
+  // discretization and at indexes 0, 2 and 4 for LGP2.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From c4fdafaee3ba798ffe77959e34d8f3d07a909d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 20/45] fix: rounding of longitudes must not put a point on the
 wrong side of a triangle

---
 include/fes/geometry/triangle.hpp |  4 +---
 src/library/geometry/triangle.cpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a4dc4ea..6661fb3 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -83,9 +83,7 @@ class Triangle : public triangle_t {
   /// the calculation of the angles of the reference triangle is also carried
   /// out in this space. The search carried out in geodesic space can cause
   /// inconsistencies between these two spaces and generate erroneous values.
-  inline auto covered_by(const geometry::Point &point) const -> bool {
-    return boost::geometry::covered_by(point, *this);
-  }
+  auto covered_by(const geometry::Point &point) const -> bool;
 
   /// Check if the triangle is valid (in the OGC sense)
   inline auto is_valid() const -> bool {
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index fc99753..9ac7089 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -4,6 +4,8 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/geometry/triangle.hpp"
 
+#include <cmath>
+
 #include "fes/detail/math.hpp"
 
 namespace fes {
@@ -25,6 +27,18 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
   return {Point(lon1, v1.lat()), Point(lon2, v2.lat()), Point(lon3, v3.lat())};
 }
 
+auto Triangle::covered_by(const Point& point) const -> bool {
+  // The vertices are put on the same turn as the point: the differences of
+  // longitudes compared are then not affected by rounding, otherwise a point
+  // on the meridian of a vertex may be seen on the wrong side of an edge.
+  auto shifted = [&point](const Point& vertex) -> Point {
+    return {point.lon() + std::remainder(vertex.lon() - point.lon(), 360.0),
+            vertex.lat()};
+  };
+  return boost::geometry::covered_by(
+      point, Triangle(shifted(v1()), shifted(v2()), shifted(v3())));
+}
+
 auto Triangle::reference_right_angled(const Point& point) const
     -> std::tuple<double, double> {
   auto const vertices = shift(point, *this).outer();
-- 
2.43.0


From 3a9c1c7caa7c171f4ad39ed7a4c24a62303b1391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 21/45] fix: every triangle near a position is examined, not
 only those of its nearest vertices

---
 include/fes/mesh/index.hpp | 13 ++++++
 src/library/mesh/index.cpp | 86 +++++++++++++++++++++++++++-----------
 2 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/include/fes/mesh/index.hpp b/include/fes/mesh/index.hpp
index 94e84da..e53f3ad 100644
--- a/include/fes/mesh/index.hpp
+++ b/include/fes/mesh/index.hpp
@@ -129,6 +129,19 @@ class Index : public std::enable_shared_from_this<Index> {
   /// The R*Tree
   rtree_t rtree_{};
 
+  /// Bounding box, in ECEF coordinates, of a triangle and index of triangle.
+  using box_t =
+      boost::geometry::model::box<geometry::EarthCenteredEarthFixed>;
+  using box_value_t = std::pair<box_t, int32_t>;
+
+  /// R*Tree of the bounding boxes of the triangles
+  using box_rtree_t =
+      boost::geometry::index::rtree<box_value_t,
+                                    boost::geometry::index::rstar<16>>;
+
+  /// The R*Tree of the bounding boxes
+  box_rtree_t box_rtree_{};
+
   /// Build the selected triangle.
   inline auto build_triangle(const int triangle_index) const
       -> geometry::Triangle {
diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index bfaf9e3..18dcb3a 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -49,6 +49,26 @@ static auto sanity_check(
   }
 }
 
+/// Box that contains the part of the Earth's surface covered by a triangle.
+static auto envelope(const geometry::EarthCenteredEarthFixed& v1,
+                     const geometry::EarthCenteredEarthFixed& v2,
+                     const geometry::EarthCenteredEarthFixed& v3)
+    -> boost::geometry::model::box<geometry::EarthCenteredEarthFixed> {
+  // The surface rises above the plane of the vertices by less than the square
+  // of the longest edge divided by the Earth's radius.
+  constexpr double kRadius = 6.35e6;
+  const auto edge = std::max({boost::geometry::distance(v1, v2),
+                              boost::geometry::distance(v2, v3),
+                              boost::geometry::distance(v3, v1)});
+  const auto margin = edge * edge / kRadius + 1;
+  return {{std::min({v1.x(), v2.x(), v3.x()}) - margin,
+           std::min({v1.y(), v2.y(), v3.y()}) - margin,
+           std::min({v1.z(), v2.z(), v3.z()}) - margin},
+          {std::max({v1.x(), v2.x(), v3.x()}) + margin,
+           std::max({v1.y(), v2.y(), v3.y()}) + margin,
+           std::max({v1.z(), v2.z(), v3.z()}) + margin}};
+}
+
 Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
              Eigen::Matrix<int32_t, Eigen::Dynamic, 3> triangles)
     : lon_(std::move(lon)),
@@ -64,6 +84,8 @@ Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
   // Allocate the values used to build the index.
   auto values = std::vector<value_t>{};
   values.reserve(triangles_.rows() * 3);
+  auto boxes = std::vector<box_value_t>{};
+  boxes.reserve(triangles_.rows());
 
   for (auto ix = 0; ix < triangles_.rows(); ++ix) {
     // Get the triangle vertices
@@ -77,36 +99,27 @@ Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
                               geometry::Point(lon_(kx), lat_(kx))),
                           std::make_pair(jx, ix));
     }
+    const auto* vertices = &values[values.size() - 3];
+    boxes.emplace_back(
+        envelope(vertices[0].first, vertices[1].first, vertices[2].first), ix);
   }
   rtree_ = rtree_t{values.begin(), values.end()};
+  box_rtree_ = box_rtree_t{boxes.begin(), boxes.end()};
 }
 
 auto Index::search(const geometry::Point& point,
                    const double max_distance) const -> SelectedTriangle {
-  constexpr size_t kMaxNeighbors = 11;
-  auto min_distance = std::numeric_limits<double>::max();
-  auto triangle_indices = std::set<int>();
-
   // Query position in ECEF coordinates
   auto cartesian_point = static_cast<geometry::EarthCenteredEarthFixed>(point);
-  // Find the nearest triangles
-  std::for_each(rtree_.qbegin(boost::geometry::index::nearest(cartesian_point,
-                                                              kMaxNeighbors)),
-                rtree_.qend(),
-                [&cartesian_point, &min_distance,
-                 &triangle_indices](const auto& item) -> void {
-                  triangle_indices.emplace(item.second.second);
-                  min_distance = std::min(
-                      min_distance,
-                      boost::geometry::distance(cartesian_point, item.first));
-                });
-
-  // We consider the distance accurate to 1 cm
-  if (min_distance < 1e-2) {
-    min_distance = 0;
-  }
 
-  // Check for each selected triangle if the point is inside.
+  // Check, for each triangle whose bounding box contains the point, in the
+  // order of their indices, if the point is inside.
+  auto triangle_indices = std::set<int>();
+  std::for_each(
+      box_rtree_.qbegin(boost::geometry::index::intersects(cartesian_point)),
+      box_rtree_.qend(), [&triangle_indices](const auto& item) -> void {
+        triangle_indices.emplace(item.second);
+      });
   for (auto& ix : triangle_indices) {
     auto triangle = build_triangle(ix);
     if (triangle.covered_by(point)) {
@@ -114,6 +127,20 @@ auto Index::search(const geometry::Point& point,
     }
   }
 
+  // Find the distance to the nearest vertex
+  auto min_distance = std::numeric_limits<double>::max();
+  std::for_each(
+      rtree_.qbegin(boost::geometry::index::nearest(cartesian_point, 1)),
+      rtree_.qend(),
+      [&cartesian_point, &min_distance](const auto& item) -> void {
+        min_distance = boost::geometry::distance(cartesian_point, item.first);
+      });
+
+  // We consider the distance accurate to 1 cm
+  if (min_distance < 1e-2) {
+    min_distance = 0;
+  }
+
   auto result = SelectedTriangle{};
 
   // If the nearest vertex is it not too far away, looking for the nearest
@@ -121,13 +148,22 @@ auto Index::search(const geometry::Point& point,
   if (min_distance < max_distance) {
     min_distance = std::numeric_limits<double>::max();
 
-    for (auto& ix : triangle_indices) {
-      auto triangle = build_triangle(ix);
+    // The triangles are visited by increasing distance to their bounding box,
+    // which is never greater than the distance to the triangle.
+    for (auto it = box_rtree_.qbegin(boost::geometry::index::nearest(
+             cartesian_point, box_rtree_.size()));
+         it != box_rtree_.qend(); ++it) {
+      if (boost::geometry::distance(cartesian_point, it->first) >
+          min_distance) {
+        break;
+      }
+      auto triangle = build_triangle(it->second);
       auto distance = triangle.distance(point);
 
-      if (distance < min_distance) {
+      if (distance < min_distance ||
+          (distance == min_distance && it->second < result.index)) {
         min_distance = distance;
-        result.index = ix;
+        result.index = it->second;
         result.triangle = std::move(triangle);
       }
     }
-- 
2.43.0


From 9e7092e7a8024a45ce52fc8f4fd8b1a908f5bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 22/45] fix: rounding of the longitude of a vertex must not put
 it out of its triangle

---
 src/library/geometry/triangle.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index 9ac7089..7965d41 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -32,8 +32,13 @@ auto Triangle::covered_by(const Point& point) const -> bool {
   // longitudes compared are then not affected by rounding, otherwise a point
   // on the meridian of a vertex may be seen on the wrong side of an edge.
   auto shifted = [&point](const Point& vertex) -> Point {
-    return {point.lon() + std::remainder(vertex.lon() - point.lon(), 360.0),
-            vertex.lat()};
+    auto delta = std::remainder(vertex.lon() - point.lon(), 360.0);
+    // Changing turn moves a longitude by a few 1e-13 degrees at most: a vertex
+    // does not leave the triangle because of that.
+    if (std::abs(delta) < 1e-12) {
+      delta = 0;
+    }
+    return {point.lon() + delta, vertex.lat()};
   };
   return boost::geometry::covered_by(
       point, Triangle(shifted(v1()), shifted(v2()), shifted(v3())));
-- 
2.43.0


From 530485fb0867e1e6529a2da364cd7398fdc44d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 23/45] fix: the nearest triangle and position do not depend on
 the turn of the longitudes

---
 include/fes/geometry/triangle.hpp | 13 +++++++++--
 src/library/geometry/triangle.cpp | 38 +++++++++++++++++++------------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index 6661fb3..2d013fb 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -100,7 +100,7 @@ class Triangle : public triangle_t {
   /// @param[in] point The point.
   /// @return The distance between the triangle and the point in meters.
   inline auto distance(const Point &point) const -> double {
-    return detail::geometry::distance(point, *this);
+    return detail::geometry::distance(point, around(point));
   }
 
   /// Calculate the area of the triangle.
@@ -140,9 +140,18 @@ class Triangle : public triangle_t {
   inline auto project(const Point &point) const -> Point {
     boost::geometry::model::segment<Point> segment;
 
-    detail::geometry::closest_points(point, *this, segment);
+    detail::geometry::closest_points(point, around(point), segment);
     return point == segment.second ? segment.first : segment.second;
   }
+
+ private:
+  /// Get this triangle with its vertices put on the same turn as the point: the
+  /// differences of longitudes are then not affected by rounding or by the date
+  /// line, otherwise a point may be seen on the wrong side of an edge.
+  ///
+  /// @param[in] point The point.
+  /// @return The same triangle, next to the point.
+  auto around(const Point &point) const -> Triangle;
 };
 
 }  // namespace geometry
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index 7965d41..68a856e 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/geometry/triangle.hpp"
 
+#include <array>
 #include <cmath>
 
 #include "fes/detail/math.hpp"
@@ -27,21 +28,30 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
   return {Point(lon1, v1.lat()), Point(lon2, v2.lat()), Point(lon3, v3.lat())};
 }
 
-auto Triangle::covered_by(const Point& point) const -> bool {
-  // The vertices are put on the same turn as the point: the differences of
-  // longitudes compared are then not affected by rounding, otherwise a point
-  // on the meridian of a vertex may be seen on the wrong side of an edge.
-  auto shifted = [&point](const Point& vertex) -> Point {
-    auto delta = std::remainder(vertex.lon() - point.lon(), 360.0);
-    // Changing turn moves a longitude by a few 1e-13 degrees at most: a vertex
-    // does not leave the triangle because of that.
-    if (std::abs(delta) < 1e-12) {
-      delta = 0;
+auto Triangle::around(const Point& point) const -> Triangle {
+  // Changing turn moves a longitude by a few 1e-13 degrees at most: because of
+  // that, a vertex must not leave the meridian of the point or that of another
+  // vertex.
+  constexpr double kEpsilon = 1e-12;
+  auto delta = std::array<double, 3>{};
+  for (auto ix = 0; ix < 3; ++ix) {
+    delta[ix] = std::remainder(outer()[ix].lon() - point.lon(), 360.0);
+    if (std::abs(delta[ix]) < kEpsilon) {
+      delta[ix] = 0;
+    }
+    for (auto jx = 0; jx < ix; ++jx) {
+      if (std::abs(delta[ix] - delta[jx]) < kEpsilon) {
+        delta[ix] = delta[jx];
+      }
     }
-    return {point.lon() + delta, vertex.lat()};
-  };
-  return boost::geometry::covered_by(
-      point, Triangle(shifted(v1()), shifted(v2()), shifted(v3())));
+  }
+  return {Point(point.lon() + delta[0], v1().lat()),
+          Point(point.lon() + delta[1], v2().lat()),
+          Point(point.lon() + delta[2], v3().lat())};
+}
+
+auto Triangle::covered_by(const Point& point) const -> bool {
+  return boost::geometry::covered_by(point, around(point));
 }
 
 auto Triangle::reference_right_angled(const Point& point) const
-- 
2.43.0


From f9b48e01674b5cb76876ffb3cce9f06909414289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 24/45] fix: restored models keep their dynamic constituents
 and accept new ones (LGP)

---
 include/fes/detail/serialize.hpp      | 28 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       | 13 +++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..14eb4fa 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -97,6 +98,33 @@ auto write_constituent_map(
   }
 }
 
+/// @brief Write a list of constituents to a stringstream
+/// @tparam T The type of the constituents
+/// @param[in] ss The stringstream to write to
+/// @param[in] data The list of constituents to write
+template <typename T>
+auto write_constituents(std::stringstream& ss, const std::vector<T>& data)
+    -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a list of constituents from a stringstream
+/// @tparam T The type of the constituents
+/// @param[in] ss The stringstream to read from
+/// @return The list of constituents read
+template <typename T>
+auto read_constituents(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.emplace_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 /// @brief Read the map of constituents from a stringstream
 /// @tparam T The type of the constituents
 /// @tparam U The type of the data
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 66d05e8..ba36cbc 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -186,6 +186,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_constituents(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -203,6 +204,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index aa869dd..48dfc68 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -182,6 +182,10 @@ class LGP : public fes::AbstractTidalModel<T> {
   auto setstate_instance(const string_view& data);
 
  private:
+  /// @brief Check the LGP codes against the mesh index and store the size
+  /// expected for the data of a constituent.
+  auto check_codes() -> void;
+
   /// Expected data size for each data set
   int expected_data_size_{};
 
@@ -310,6 +314,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  check_codes();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::check_codes() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -413,6 +423,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_constituents(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -427,6 +438,8 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
+  this->check_codes();
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From 9794c0988ea22fd40e1b1ef9acce0f064fbf051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 25/45] fix: corrupt states are refused instead of being read
 blindly

---
 include/fes/detail/isviewstream.hpp   | 12 +++++++---
 include/fes/detail/serialize.hpp      | 33 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp | 19 +++++++++++----
 include/fes/tidal_model/lgp.hpp       | 25 ++++++++++++++------
 src/library/axis.cpp                  |  7 +++---
 src/library/mesh/index.cpp            |  1 +
 6 files changed, 80 insertions(+), 17 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..e49dfa8 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -80,15 +80,21 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   explicit isviewstream(const string_view& str)
       : sviewbuf(str), std::istream(static_cast<std::streambuf*>(this)) {}
 
+  /// @brief Get the number of characters that have not been extracted yet.
+  /// @return The number of characters left.
+  auto available() const -> std::streamsize {
+    return this->egptr() - this->gptr();
+  }
+
   /// @brief Extract a string_view from the stream.
   /// @param[in] count The number of characters to extract.
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
-    auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto avail = available();
+    auto size = count < 0 ? 0 : std::min(count, avail);
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (count < 0 || avail < count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 14eb4fa..8398a32 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -6,8 +6,10 @@
 /// @brief Serialization utilities.
 #pragma once
 #include <Eigen/Core>
+#include <cstdint>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 #include "fes/detail/isviewstream.hpp"
@@ -36,6 +38,27 @@ auto read_data(detail::isviewstream& ss) -> T {
   return data;
 }
 
+/// @brief Read a boolean from a stringstream
+/// @param[in] ss The stringstream to read from
+/// @return The boolean read
+/// @throw std::invalid_argument If the data read is not a boolean
+inline auto read_bool(detail::isviewstream& ss) -> bool {
+  auto data = read_data<uint8_t>(ss);
+  if (data > 1) {
+    throw std::invalid_argument("invalid boolean");
+  }
+  return data == 1;
+}
+
+/// @brief Check that all the data of a stringstream has been read
+/// @param[in] ss The stringstream to check
+/// @throw std::invalid_argument If some data has not been read
+inline auto check_end(const detail::isviewstream& ss) -> void {
+  if (ss.available() != 0) {
+    throw std::invalid_argument("unexpected data");
+  }
+}
+
 /// @brief Write a string to a stringstream
 /// @param[in] ss The stringstream to write to
 /// @param[in] data The string to write
@@ -77,6 +100,13 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // Don't allocate more than what remains to be read.
+  auto available = ss.available() / static_cast<std::streamsize>(sizeof(T));
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS) ||
+      (cols != 0 && rows > available / cols)) {
+    throw std::invalid_argument("invalid matrix size");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
@@ -134,6 +164,9 @@ template <typename T, typename U>
 auto read_constituent_map(detail::isviewstream& ss)
     -> std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>> {
   auto size = read_data<Eigen::Index>(ss);
+  if (size < 0) {
+    throw std::invalid_argument("invalid number of constituents");
+  }
   auto data = std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>>{};
   for (auto ix = 0; ix < size; ++ix) {
     auto constituent = read_data<T>(ss);
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ba36cbc..da4d641 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -48,9 +48,7 @@ class Cartesian : public AbstractTidalModel<T> {
   /// @param[in] wave The tidal constituent modelled.
   inline auto add_constituent(const Constituent ident,
                               Vector<std::complex<T>> wave) -> void override {
-    if (wave.size() != lon_.size() * lat_.size()) {
-      throw std::invalid_argument("wave size does not match expected size");
-    }
+    check_size(wave);
     this->data_.emplace(ident, std::move(wave));
   }
 
@@ -98,6 +96,15 @@ class Cartesian : public AbstractTidalModel<T> {
   static auto setstate(const string_view& data) -> Cartesian<T>;
 
  private:
+  /// Check that the data of a constituent has the size of the grid.
+  ///
+  /// @param[in] wave The tidal constituent modelled.
+  auto check_size(const Vector<std::complex<T>>& wave) const -> void {
+    if (wave.size() != lon_.size() * lat_.size()) {
+      throw std::invalid_argument("wave size does not match expected size");
+    }
+  }
+
   /// Whether the data is stored in longitude-major order.
   bool row_major_;
   /// Longitude axis.
@@ -195,7 +202,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
   detail::isviewstream ss(data);
   ss.exceptions(std::stringstream::failbit);
   try {
-    auto row_major = detail::serialize::read_data<bool>(ss);
+    auto row_major = detail::serialize::read_bool(ss);
     auto lon = Axis::setstate(detail::serialize::read_string(ss));
     auto lat = Axis::setstate(detail::serialize::read_string(ss));
     auto tide_type = detail::serialize::read_data<TideType>(ss);
@@ -205,6 +212,10 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
     model.dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
+    detail::serialize::check_end(ss);
+    for (const auto& item : model.data_) {
+      model.check_size(item.second);
+    }
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 48dfc68..0d54912 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -114,13 +114,7 @@ class LGP : public fes::AbstractTidalModel<T> {
   /// @param[in] wave The wave model.
   inline auto add_constituent(const Constituent ident,
                               Vector<std::complex<T>> wave) -> void override {
-    // wave is a vector of values for each LGP codes. The number of values must
-    // match the number of LGP codes handled by this instance.
-    if (expected_data_size_ != wave.size()) {
-      throw std::invalid_argument("wave size does not match expected size: " +
-                                  std::to_string(wave.size()) +
-                                  " != " + std::to_string(expected_data_size_));
-    }
+    check_size(wave);
     this->data_.emplace(ident, std::move(wave));
   }
 
@@ -186,6 +180,19 @@ class LGP : public fes::AbstractTidalModel<T> {
   /// expected for the data of a constituent.
   auto check_codes() -> void;
 
+  /// @brief Check the size of the data of a constituent.
+  ///
+  /// @param[in] wave The wave model.
+  auto check_size(const Vector<std::complex<T>>& wave) const -> void {
+    // wave is a vector of values for each LGP codes. The number of values must
+    // match the number of LGP codes handled by this instance.
+    if (expected_data_size_ != wave.size()) {
+      throw std::invalid_argument("wave size does not match expected size: " +
+                                  std::to_string(wave.size()) +
+                                  " != " + std::to_string(expected_data_size_));
+    }
+  }
+
   /// Expected data size for each data set
   int expected_data_size_{};
 
@@ -439,7 +446,11 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
+  detail::serialize::check_end(ss);
   this->check_codes();
+  for (const auto& item : this->data_) {
+    this->check_size(item.second);
+  }
 }
 
 }  // namespace tidal_model
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index cf2c2cb..fc2551a 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -159,13 +159,14 @@ auto Axis::setstate(const string_view& data) -> Axis {
   detail::isviewstream ss(data);
   ss.exceptions(std::stringstream::failbit);
   try {
-    auto is_circular = detail::serialize::read_data<bool>(ss);
-    auto is_ascending = detail::serialize::read_data<bool>(ss);
+    auto is_circular = detail::serialize::read_bool(ss);
+    auto is_ascending = detail::serialize::read_bool(ss);
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
+    detail::serialize::check_end(ss);
     return Axis(is_circular, is_ascending, start, size, step);
-  } catch (const std::ios_base::failure&) {
+  } catch (const std::exception&) {
     throw std::invalid_argument("invalid axis state");
   }
 }
diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index 18dcb3a..c449639 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -189,6 +189,7 @@ auto Index::setstate(const string_view& data) -> Index {
     auto lat = detail::serialize::read_matrix<double, Eigen::Dynamic, 1>(ss);
     auto triangles =
         detail::serialize::read_matrix<int32_t, Eigen::Dynamic, 3>(ss);
+    detail::serialize::check_end(ss);
     return Index(std::move(lon), std::move(lat), std::move(triangles));
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid index state");
-- 
2.43.0


From fdd1b6c1c95f6ef456b35b54c986d2340eb3d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 26/45] fix: an undefined position or the antipode of a vertex
 is in no triangle

---
 include/fes/geometry/triangle.hpp |  7 +++++++
 src/library/geometry/triangle.cpp | 19 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index 2d013fb..4d3c6b5 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -152,6 +152,13 @@ class Triangle : public triangle_t {
   /// @param[in] point The point.
   /// @return The same triangle, next to the point.
   auto around(const Point &point) const -> Triangle;
+
+  /// Test if a point is on the same side of the Earth as the triangle. The
+  /// point diametrically opposed to a vertex is aligned with its edges.
+  ///
+  /// @param[in] point The point.
+  /// @return False if the point cannot be in the triangle, or is undefined.
+  auto same_side_of_earth(const Point &point) const -> bool;
 };
 
 }  // namespace geometry
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index 68a856e..44a68b2 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/geometry/triangle.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -50,8 +51,24 @@ auto Triangle::around(const Point& point) const -> Triangle {
           Point(point.lon() + delta[2], v3().lat())};
 }
 
+auto Triangle::same_side_of_earth(const Point& point) const -> bool {
+  // A point of a triangle is less than 90 degrees away from one of its
+  // vertices. This is false when a coordinate is undefined.
+  const auto lat = detail::math::radians(point.lat());
+  return std::any_of(
+      outer().begin(), outer().begin() + 3, [&](const Point& vertex) -> bool {
+        const auto vertex_lat = detail::math::radians(vertex.lat());
+        const auto dlon = detail::math::radians(
+            std::remainder(vertex.lon() - point.lon(), 360.0));
+        return std::sin(lat) * std::sin(vertex_lat) +
+                   std::cos(lat) * std::cos(vertex_lat) * std::cos(dlon) >
+               0;
+      });
+}
+
 auto Triangle::covered_by(const Point& point) const -> bool {
-  return boost::geometry::covered_by(point, around(point));
+  return same_side_of_earth(point) &&
+         boost::geometry::covered_by(point, around(point));
 }
 
 auto Triangle::reference_right_angled(const Point& point) const
-- 
2.43.0


From 6ab3507f97b96da7260f5bcbccaaa926b9312b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 27/45] fix: a point on the border of the cached triangle is
 searched again

---
 include/fes/geometry/triangle.hpp | 7 +++++++
 include/fes/tidal_model/lgp.hpp   | 5 +++--
 src/library/geometry/triangle.cpp | 5 +++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index 4d3c6b5..82df8b8 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -85,6 +85,13 @@ class Triangle : public triangle_t {
   /// inconsistencies between these two spaces and generate erroneous values.
   auto covered_by(const geometry::Point &point) const -> bool;
 
+  /// Test if the point is inside the triangle.
+  ///
+  /// @param[in] point The point.
+  /// @return True if the point is inside of the triangle, false if it is
+  /// outside or on the border.
+  auto within(const geometry::Point &point) const -> bool;
+
   /// Check if the triangle is valid (in the OGC sense)
   inline auto is_valid() const -> bool {
     return boost::geometry::is_valid(*this);
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 0d54912..60ed885 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -71,9 +71,10 @@ class LGPAccelerator : public Accelerator {
     // If the selected triangle is valid and the point is inside the triangle,
     // the point is considered to be in the cache. A point that is projected
     // onto the edge of the nearest triangle will not be considered to be in the
-    // cache.
+    // cache, nor a point on the border: it may be that of another triangle,
+    // with other values, that would be selected without the cache.
     return selected_.index != -1 && selected_.inside &&
-           selected_.triangle.covered_by(point);
+           selected_.triangle.within(point);
   }
 
  private:
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index 44a68b2..c89fcc3 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -71,6 +71,11 @@ auto Triangle::covered_by(const Point& point) const -> bool {
          boost::geometry::covered_by(point, around(point));
 }
 
+auto Triangle::within(const Point& point) const -> bool {
+  return same_side_of_earth(point) &&
+         boost::geometry::within(point, around(point));
+}
+
 auto Triangle::reference_right_angled(const Point& point) const
     -> std::tuple<double, double> {
   auto const vertices = shift(point, *this).outer();
-- 
2.43.0


From d0f99d2f67efc62295b35fd8b304960b17b0a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 28/45] fix: leap seconds of a single date after 2262

---
 src/python/pyfes/leap_seconds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..72d611a 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -168,7 +168,8 @@ def get_leap_seconds(
     if isinstance(utc, datetime.datetime):
         utc = numpy.datetime64(utc)
     if isinstance(utc, numpy.datetime64):
-        utc = numpy.array([utc], dtype='datetime64[ns]')
+        # The unit of the date is kept: nanoseconds end in 2262.
+        utc = numpy.array([utc])
     if numpy.any(utc < numpy.datetime64('1972-01-01')):
         raise ValueError('Cannot compute leap seconds before 1972.')
 
-- 
2.43.0


From cecdf452cd49f6ed6c5a07853e9686028ff34d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 29/45] fix: the order of the dates is not that of the table of
 leap seconds

---
 src/python/pyfes/leap_seconds.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 72d611a..0f8d3f0 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -159,8 +159,8 @@ def get_leap_seconds(
 
     Args:
         utc: The UTC times.
-        sorter: The indices which would sort the `utc` array. If not
-            given, the `utc` array is sorted internally.
+        sorter: The indices which would sort the `utc` array. The dates
+            need not be sorted: this argument has no effect.
     Returns:
         The UTC-TAI difference for the given UTC times.
     """
@@ -174,8 +174,5 @@ def get_leap_seconds(
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    index: numpy.ndarray = numpy.searchsorted(table['utc'], utc, side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From 908b35fc9ce5e5294077ee383fc2e6fd3462455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 30/45] fix: a table of leap seconds that cannot be refreshed
 is still used

---
 src/python/pyfes/leap_seconds.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 0f8d3f0..90e8142 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 from collections.abc import Callable
 import datetime
 import functools
+import http.client
 import pathlib
 import re
 from re import Match
@@ -63,14 +64,19 @@ def _download_leap_second_file() -> None:
                                      'Accept': '*/*'
                                  })
 
-    response = urlopener.open(req, timeout=None)
-    if response.status != 200:
+    try:
+        with urlopener.open(req, timeout=None) as response:
+            if response.status != 200:
+                raise RuntimeError(
+                    f'Failed to download leap second file: {response.status} '
+                    f'{response.reason}')
+            content = response.read()
+        LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
+        with LEAP_SECOND_FILE.open('wb') as stream:
+            stream.write(content)
+    except (OSError, http.client.HTTPException) as err:
         raise RuntimeError(
-            f'Failed to download leap second file: {response.status} '
-            f'{response.reason}')
-    LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-    with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(response.read())
+            f'Failed to download leap second file: {err}') from err
 
 
 def _read_leap_second_file(
-- 
2.43.0


From 799857b779adf628181e18444f53f817a4b54a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 31/45] fix: refreshing the table of leap seconds does not wait
 forever

---
 src/python/pyfes/leap_seconds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 90e8142..c56345a 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -38,6 +38,9 @@ LEAP_SECOND_FILE = pathlib.Path(__file__).parent / 'data' / 'leap-seconds.txt'
 #: User agent used for downloading files.
 USER_AGENT = f'Python/{sys.version_info.major}.{sys.version_info.minor}'
 
+#: Time, in seconds, that the server has to answer.
+DOWNLOAD_TIMEOUT = 30
+
 #: Month abbreviations.
 MONTH_ABBREVIATIONS = [
     'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
@@ -65,7 +68,7 @@ def _download_leap_second_file() -> None:
                                  })
 
     try:
-        with urlopener.open(req, timeout=None) as response:
+        with urlopener.open(req, timeout=DOWNLOAD_TIMEOUT) as response:
             if response.status != 200:
                 raise RuntimeError(
                     f'Failed to download leap second file: {response.status} '
-- 
2.43.0


From da6feccb646461e6206424ee8e41de4aab3d5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 32/45] fix: a failed refresh leaves the table of leap seconds
 as it was

---
 src/python/pyfes/leap_seconds.py | 115 ++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 42 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index c56345a..d4d723f 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -12,6 +12,7 @@ from collections.abc import Callable
 import datetime
 import functools
 import http.client
+import os
 import pathlib
 import re
 from re import Match
@@ -74,67 +75,62 @@ def _download_leap_second_file() -> None:
                     f'Failed to download leap second file: {response.status} '
                     f'{response.reason}')
             content = response.read()
+        _check_leap_second_file(content.decode().splitlines())
         LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-        with LEAP_SECOND_FILE.open('wb') as stream:
-            stream.write(content)
-    except (OSError, http.client.HTTPException) as err:
+        _replace_leap_second_file(content)
+    except (OSError, ValueError, http.client.HTTPException) as err:
         raise RuntimeError(
             f'Failed to download leap second file: {err}') from err
 
 
-def _read_leap_second_file(
-        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
-    """Read the IERS leap second file."""
-    re_expires: Callable[[str], Match[str] | None] = re.compile(
-        r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
+def _check_leap_second_file(lines: list[str]) -> None:
+    """Check that the lines downloaded are those of a leap second file that
+    can replace the one in place: leap seconds are never removed."""
+    _parse_expiration_date(lines)
+    entries = _parse_entries(lines)
+    if not entries:
+        raise RuntimeError('Did not find any leap second')
+    if LEAP_SECOND_FILE.exists():
+        with LEAP_SECOND_FILE.open('r') as stream:
+            current = _parse_entries(stream.readlines())
+        if entries[:len(current)] != current:
+            raise RuntimeError('Leap seconds are missing')
+
+
+def _replace_leap_second_file(content: bytes) -> None:
+    """Replace the leap second file, which is never seen partly written."""
+    path = LEAP_SECOND_FILE.with_name(
+        f'{LEAP_SECOND_FILE.name}.{os.getpid()}')
+    try:
+        with path.open('wb') as stream:
+            stream.write(content)
+        os.replace(path, LEAP_SECOND_FILE)
+    finally:
+        path.unlink(missing_ok=True)
 
-    if not LEAP_SECOND_FILE.exists() or download:
-        _download_leap_second_file()
 
-    with LEAP_SECOND_FILE.open('r') as stream:
-        lines = stream.readlines()
+def _parse_expiration_date(lines: list[str]) -> numpy.datetime64:
+    """Read the expiration date of the leap second file."""
+    re_expires: Callable[[str], Match[str] | None] = re.compile(
+        r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
 
-    expires: numpy.datetime64 | None = None
     for line in lines:
         match = re_expires(line)
         if match:
             day, month_abbreviation, year = match.groups()[0].split()
             day, year = map(int, (day, year))
             month = MONTH_ABBREVIATIONS.index(month_abbreviation[:3]) + 1
-            expires = numpy.datetime64(f'{year}-{month:02d}-{day:02d}')
-            break
-    if expires is None:
-        raise RuntimeError(
-            f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
-
-    return expires, lines
+            return numpy.datetime64(f'{year}-{month:02d}-{day:02d}')
+    raise RuntimeError(
+        f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
 
 
-@functools.lru_cache(maxsize=1)
-def _load_leap_second_file() -> NDArrayStructured:
-    """Load the IERS leap second file."""
-
+def _parse_entries(lines: list[str]) -> list[tuple[numpy.datetime64, int]]:
+    """Read the leap second entries of the leap second file."""
     # Regex for matching leap second entries.
     re_entry: Callable[[str], Match[str] | None] = re.compile(
         r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
 
-    expires: numpy.datetime64
-    lines: list[str]
-
-    # Read the leap second file.
-    expires, lines = _read_leap_second_file()
-    if expires < numpy.datetime64('today'):
-        # If the leap second file has expired, try to download a new one.
-        warnings.warn(
-            f'Leap second file {LEAP_SECOND_FILE.name} has expired. '
-            'Downloading a new version.', UserWarning)
-        try:
-            expires, lines = _read_leap_second_file(download=True)
-        except RuntimeError:
-            warnings.warn(
-                'Failed to download new leap second file. '
-                'Using expired file.', UserWarning)
-
     # Number of seconds elapsed between 1900-01-01T00:00:00:00+0000 and
     # 1970-01-01T00:00:00:00+0000
     duration = 25_567 * 86_400
@@ -152,8 +148,43 @@ def _load_leap_second_file() -> NDArrayStructured:
                 numpy.datetime64(epoch, 's'),
                 leap_seconds,
             ))
+    return entries
+
+
+def _read_leap_second_file(
+        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
+    """Read the IERS leap second file."""
+    if not LEAP_SECOND_FILE.exists() or download:
+        _download_leap_second_file()
+
+    with LEAP_SECOND_FILE.open('r') as stream:
+        lines = stream.readlines()
+
+    return _parse_expiration_date(lines), lines
+
+
+@functools.lru_cache(maxsize=1)
+def _load_leap_second_file() -> NDArrayStructured:
+    """Load the IERS leap second file."""
+
+    expires: numpy.datetime64
+    lines: list[str]
+
+    # Read the leap second file.
+    expires, lines = _read_leap_second_file()
+    if expires < numpy.datetime64('today'):
+        # If the leap second file has expired, try to download a new one.
+        warnings.warn(
+            f'Leap second file {LEAP_SECOND_FILE.name} has expired. '
+            'Downloading a new version.', UserWarning)
+        try:
+            expires, lines = _read_leap_second_file(download=True)
+        except RuntimeError:
+            warnings.warn(
+                'Failed to download new leap second file. '
+                'Using expired file.', UserWarning)
 
-    return numpy.array(entries,
+    return numpy.array(_parse_entries(lines),
                        dtype=[
                            ('utc', 'datetime64[s]'),
                            ('seconds', 'uint16'),
-- 
2.43.0


From dead9cf54d424531ac2a8eae3c092731c36c47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 33/45] fix: build a first order model when the type lgp1 is
 configured

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..7c20105 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -393,7 +393,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From 7bfbd70abd3b76128ce40a9a76cf38692059e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 34/45] fix: refuse the constituents of a configuration not
 defined on the same grid

---
 src/python/pyfes/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c20105..7cf3fc3 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,11 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or len(self.lon) != len(other.lon)
+                        or len(self.lat) != len(other.lat)
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
-- 
2.43.0


From 41a912db124c058c4d60c7450c8d90483ef575b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 35/45] fix: read the phases of unstructured models in degrees
 whatever the spelling

---
 src/python/pyfes/config.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7cf3fc3..55096c4 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -131,6 +131,11 @@ def _parse(contents: Any) -> Any:
     return contents
 
 
+def _is_degrees(units: str) -> bool:
+    """Return true if the given unit of the phases is the degree."""
+    return units.lower() in ['degree', 'degrees', 'deg']
+
+
 def load_cartesian_model(
     path: str,
     lon_name: str,
@@ -155,9 +160,7 @@ def load_cartesian_model(
         lat: Vector = ds.variables[lat_name][:]
         amp: Matrix = numpy.ma.filled(ds.variables[amp_name][:], numpy.nan)
         pha: Matrix = numpy.ma.filled(ds.variables[pha_name][:], numpy.nan)
-        if ds.variables[pha_name].units.lower() in [
-                'degree', 'degrees', 'deg'
-        ]:
+        if _is_degrees(ds.variables[pha_name].units):
             pha = numpy.radians(pha)
 
     wave: Matrix = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
@@ -429,7 +432,7 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if _is_degrees(ds.variables[pha_name].units):
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 5eb4b7f5c06b61c2be888822e155c545b11e98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 36/45] fix: read grids in the storage order told by their
 dimensions

---
 src/python/pyfes/config.py | 47 +++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 55096c4..b9f7609 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -136,6 +136,40 @@ def _is_degrees(units: str) -> bool:
     return units.lower() in ['degree', 'degrees', 'deg']
 
 
+def _load_grid(
+    ds: netCDF4.Dataset,
+    name: str,
+    lon_name: str,
+    lat_name: str,
+) -> Matrix:
+    """Load a grid with its first dimension along the latitudes.
+
+    Args:
+        ds: The dataset to read
+        name: Name of the variable containing the grid
+        lon_name: Name of the longitude variable
+        lat_name: Name of the latitude variable
+
+    Returns:
+        The values of the grid, the missing ones being set to NaN.
+    """
+    variable = ds.variables[name]
+    lon = ds.variables[lon_name]
+    lat = ds.variables[lat_name]
+    grid: Matrix = numpy.ma.filled(variable[:], numpy.nan)
+    shape: tuple[int, ...] = lat.shape + lon.shape
+
+    # The names of the dimensions tell the storage order, even if there are
+    # as many longitudes as latitudes.
+    if (variable.dimensions == lon.dimensions + lat.dimensions
+            or grid.shape != shape):
+        grid = grid.T
+    if len(grid.shape) != 2 or grid.shape != shape:
+        raise ValueError(f'The variable {name!r} has invalid shape: '
+                         f'{variable.shape!r}.')
+    return grid
+
+
 def load_cartesian_model(
     path: str,
     lon_name: str,
@@ -153,13 +187,14 @@ def load_cartesian_model(
         pha_name: Name of the phase variable
 
     Returns:
-        A tuple containing the longitude, latitude and tidal model.
+        A tuple containing the longitude, latitude and tidal model. The first
+        dimension of the tidal model is the latitude.
     """
     with netCDF4.Dataset(path) as ds:  # type: ignore
         lon: Vector = ds.variables[lon_name][:]
         lat: Vector = ds.variables[lat_name][:]
-        amp: Matrix = numpy.ma.filled(ds.variables[amp_name][:], numpy.nan)
-        pha: Matrix = numpy.ma.filled(ds.variables[pha_name][:], numpy.nan)
+        amp: Matrix = _load_grid(ds, amp_name, lon_name, lat_name)
+        pha: Matrix = _load_grid(ds, pha_name, lon_name, lat_name)
         if _is_degrees(ds.variables[pha_name].units):
             pha = numpy.radians(pha)
 
@@ -292,10 +327,6 @@ class Cartesian(Common):
                 self.phase,
             )
 
-            if len(wave.shape) != 2:
-                raise ValueError(f'defined constituent {constituent!r} has '
-                                 f'invalid shape: {wave.shape!r}.')
-
             # Create the tidal model if it doesn't exist yet.
             if tidal_model is None:
 
@@ -315,7 +346,7 @@ class Cartesian(Common):
                     core.Axis(lon, epsilon=self.epsilon, is_circular=True),
                     core.Axis(lat),
                     tide_type=TideType[self.tidal_type.upper()].value,
-                    longitude_major=wave.shape[0] == len(lon),
+                    longitude_major=False,
                 )
 
                 # Memorize the properties of the grid.
-- 
2.43.0


From f29a0f72d2c4259a723786fdefee33584e22d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 37/45] fix: refuse several or unknown kinds of models in a
 section

---
 src/python/pyfes/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index b9f7609..f952314 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -518,6 +518,13 @@ def _load_model(settings: dict[str, Any], tidal_type: str) -> TidalModel:
             raise TypeError(f'{section}.__init__() got an '
                             "unexpected keyword argument 'tidal_type'")
 
+    unknown: set[str] = set(settings) - {'cartesian', 'lgp'}
+    if unknown:
+        raise ValueError('Unknown tidal model: '
+                         f'{", ".join(map(repr, sorted(unknown)))}.')
+    if len(settings) > 1:
+        raise ValueError('Expected either "cartesian" or "lgp", not both.')
+
     if 'cartesian' in settings:
         tidal_type_exists(settings, 'cartesian')
         settings['cartesian'].update(tidal_type=tidal_type)
-- 
2.43.0


From 48d9c23f4f8d6df72f37d9e4d2366f3084dfb5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 38/45] fix: refuse a finite element model without index

---
 include/fes/tidal_model/lgp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 60ed885..9043a87 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -328,6 +328,10 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
 // /////////////////////////////////////////////////////////////////////////////
 template <typename T, int N>
 auto LGP<T, N>::check_codes() -> void {
+  if (index_ == nullptr) {
+    throw std::invalid_argument("index must not be null");
+  }
+
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
-- 
2.43.0


From 0e388023aa139870c2c0095b9c8162075ebf7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 39/45] fix: use the formulae asked for in
 tide_from_tide_series (Python)

---
 src/python/core/wave/table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/core/wave/table.cpp b/src/python/core/wave/table.cpp
index 9175597..59301c4 100644
--- a/src/python/core/wave/table.cpp
+++ b/src/python/core/wave/table.cpp
@@ -73,7 +73,8 @@ Returns:
             auto epoch = fes::python::npdatetime64_to_epoch(dates);
             {
               py::gil_scoped_release gil;
-              return self.tide_from_tide_series(epoch, leap_seconds, wave);
+              return self.tide_from_tide_series(epoch, leap_seconds, wave,
+                                                formulae);
             }
           },
           py::arg("dates"), py::arg("leap_seconds"), py::arg("wave"),
-- 
2.43.0


From 5b4721257819240adcc16f86c994637669e96667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 40/45] fix: refuse None as the model of evaluate_tide (Python)

---
 src/python/core/tide.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/core/tide.cpp b/src/python/core/tide.cpp
index 9a862ec..0a6a581 100644
--- a/src/python/core/tide.cpp
+++ b/src/python/core/tide.cpp
@@ -17,7 +17,7 @@
 namespace py = pybind11;
 
 template <typename T>
-auto evaluate_tide(const fes::AbstractTidalModel<T>* const tidal_model,
+auto evaluate_tide(const fes::AbstractTidalModel<T>& tidal_model,
                    py::array& dates,
                    const Eigen::Ref<const fes::Vector<uint16_t>>& leap_seconds,
                    const Eigen::Ref<const Eigen::VectorXd>& longitudes,
@@ -34,7 +34,7 @@ auto evaluate_tide(const fes::AbstractTidalModel<T>* const tidal_model,
   auto epoch = fes::python::npdatetime64_to_epoch(dates);
   {
     py::gil_scoped_release gil;
-    return fes::evaluate_tide(tidal_model, epoch, leap_seconds, longitudes,
+    return fes::evaluate_tide(&tidal_model, epoch, leap_seconds, longitudes,
                               latitudes, settings.value_or(fes::Settings()),
                               num_threads);
   }
-- 
2.43.0


From 10a9e3a3a3fc8180bcc64f68ca8b3c13f3cef2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 41/45] fix: NaT is no date: its epoch is not a number (Python)

---
 include/fes/python/datetime64.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/python/datetime64.hpp b/include/fes/python/datetime64.hpp
index 1888890..4d3de71 100644
--- a/include/fes/python/datetime64.hpp
+++ b/include/fes/python/datetime64.hpp
@@ -9,6 +9,8 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 namespace fes {
@@ -67,7 +69,10 @@ static inline auto npdatetime64_to_epoch(const pybind11::array& array)
   {
     pybind11::gil_scoped_release release;
     for (pybind11::ssize_t ix = 0; ix < ptr.size(); ++ix) {
-      result(ix) = ptr(ix) * scale;
+      // Not-a-Time is the smallest integer
+      result(ix) = ptr(ix) == std::numeric_limits<int64_t>::min()
+                       ? std::numeric_limits<double>::quiet_NaN()
+                       : ptr(ix) * scale;
     }
   }
   return result;
-- 
2.43.0


From cc5c52f3ea5c3ffff598cc9c013e9439884936d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 42/45] fix: look for the waves by name in
 WaveDict.tide_from_tide_series

---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..40e6f5c 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -180,6 +180,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From 2fb637f1ccc792ef01bdbe8c3cafcdffe979161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 43/45] fix: use the formulae asked for with lists of dates in
 compute_nodal_modulations

---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 40e6f5c..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From e1478339a78f6664f5c642af0f06dc2a84092dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 44/45] fix: convert meshes without the O1 wave
 (fes_convert_mesh)

---
 src/python/pyfes/console_script/fes_convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/console_script/fes_convert_mesh.py b/src/python/pyfes/console_script/fes_convert_mesh.py
index 4c21fdc..dae6dfa 100644
--- a/src/python/pyfes/console_script/fes_convert_mesh.py
+++ b/src/python/pyfes/console_script/fes_convert_mesh.py
@@ -110,7 +110,7 @@ def main():
         ds.createDimension('triangles', triangles.shape[0])
         ds.createDimension('three', 3)
         ds.createDimension('six', 6)
-        ds.createDimension('lgp2_nodes', len(waves['O1'][0]))
+        ds.createDimension('lgp2_nodes', len(next(iter(waves.values()))[0]))
 
         x_var = ds.createVariable('lon', 'f8', ('coordinates', ), zlib=True)
         x_var.units = 'degrees_east'
-- 
2.43.0


From c3866b23b764b2ca1efe471deb34f233f940b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 45/45] fix: refuse the state of an axis without elements

---
 src/library/axis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fc2551a..745a1c6 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -165,6 +165,10 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
     detail::serialize::check_end(ss);
+    // An axis contains at least two elements, unless it's undefined.
+    if (size < 0 || size == 1 || (size == 0 && is_circular)) {
+      throw std::invalid_argument("invalid axis size");
+    }
     return Axis(is_circular, is_ascending, start, size, step);
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid axis state");
-- 
2.43.0

