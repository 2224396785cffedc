From 05f11b45101f0c333589e823e502d4ac5f4e7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 01/48] fix: re-check dimension label registry under the write
 lock

Two threads creating the same new label could both miss it under the shared
lock and register it twice, giving two labels of the same name that compare
unequal.
---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..d72853d 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have inserted the label while the lock was released.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From dfe7cb956008cbdad8a55c6117d023ee12ffb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/48] fix: keep null state when copy-assigning a null
 element_array

Copy construction preserves the null state but copy assignment turned a null
array into an empty non-null one (also for self-assignment).
---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..c409828 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = from_other(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From b78332ccdc191960938d4822ca121b88eb66a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 03/48] fix: include the origin in memory_bounds for
 non-positive strides

For broadcasts (all strides zero) the bounds were empty, so that in-place
operations missed the overlap with an operand broadcast from their output.
---
 lib/common/include/scipp/common/index_composition.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..3be52a0 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -55,7 +55,9 @@ constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
     else
       end += *shape_it * *strides_it;
   }
-  return std::pair{begin, end};
+  // The element at offset 0 is always reachable, also if no stride is positive,
+  // e.g., for broadcasts.
+  return std::pair{begin, end > 0 ? end : scipp::index{1}};
 }
 
 /// Extract individual indices from a flat index.
-- 
2.43.0


From 9fcea3608817e0576412b67e09a03330142485c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 04/48] fix: refuse more than NDIM_OP_MAX dimensions in
 ViewIndex instead of writing out of bounds

---
 lib/core/view_index.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/core/view_index.cpp b/lib/core/view_index.cpp
index 57493cf..139afd5 100644
--- a/lib/core/view_index.cpp
+++ b/lib/core/view_index.cpp
@@ -19,6 +19,10 @@ ViewIndex::ViewIndex(const Dimensions &target_dimensions,
     const auto size = target_dimensions.size(dim_read);
     rewind = size * stride;
     if (delta != 0 || stride == 0) {
+      if (dim_write >= NDIM_OP_MAX)
+        throw std::runtime_error("Iteration with more than " +
+                                 std::to_string(NDIM_OP_MAX) +
+                                 " dimensions is not supported.");
       m_shape[dim_write] = size;
       m_delta[dim_write] = delta;
       m_strides[dim_write] = stride;
-- 
2.43.0


From 57bf1104c82ac70e907a2b1e543b8f29db15631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 05/48] fix: do not merge a broadcast dimension with the
 innermost dimension in MultiIndex

---
 lib/core/multi_index.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..304304a 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,13 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
+    // Also updates strides_for_contiguous, i.e., needs to run for every dim.
+    const bool contiguous =
+        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
+                         strides_for_contiguous, strides...);
     if (dim_read > non_flattenable_dim &&
         dim_write > 0 && // need to write at least one inner dim
-        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+        contiguous) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 9c99fceed318d5528ada276daa5be5c89efa5d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 06/48] fix: treat bins of an empty multi-dimensional buffer as
 empty in MultiIndex

---
 lib/core/multi_index.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index 304304a..b964603 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -138,7 +138,10 @@ template <scipp::index N>
 template <class... Params>
 MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
                           const Dimensions &bin_dims, const Params &...params)
-    : m_bin{BinIterator(params.bucketParams(), bin_dims.volume())...} {
+    // Without any elements in the buffer all bins are empty, even if their range
+    // along the bin-slice dim is not.
+    : m_bin{BinIterator(params.bucketParams(),
+                        bin_dims.volume() * inner_dims.volume())...} {
   validate_bin_indices(params...);
 
   const Dim slice_dim = get_slice_dim(params.bucketParams()...);
-- 
2.43.0


From e5fedf389cde2b7ba96b9e9456d56998b0e94b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 07/48] fix: reject non-monotonic integers and NaN in
 islinspace and isarange

---
 lib/common/include/scipp/common/numeric.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..2d5e5a3 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -27,14 +27,15 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                // Negated such that NaN is not a valid step.
+                                return !(std::abs(std::abs(b - a) - delta) <=
+                                         epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b - a != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +48,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b - a != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From dc1b22dda9e84d760f18b1815b2d1192cb1ca009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 08/48] fix: compute integer floor_divide and remainder exactly

---
 lib/common/include/scipp/common/numeric.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 2d5e5a3..acd603b 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -64,10 +64,19 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    // Not using floating-point division since it is not exact for large values.
+    using C = std::common_type_t<T, U>;
+    const C x = a;
+    const C y = b;
+    if (y == 0)
+      return 0;
+    if (y == -1) // x / y and x % y trap for the smallest x
+      return -x;
+    return x / y - ((x % y != 0) && ((x < 0) != (y < 0)));
+  } else {
     return floor(a / b);
+  }
 }
 
 // Remainder like Python's __mod__, complementary to floor_divide.
@@ -75,7 +84,13 @@ template <class T, class U> auto remainder(const T &a, const U &b) {
   if constexpr (std::is_floating_point_v<T> || std::is_floating_point_v<U>) {
     return b == 0 ? NAN : a - floor_divide(a, b) * b;
   } else {
-    return b == 0 ? 0 : a - floor_divide(a, b) * b;
+    using C = std::common_type_t<T, U>;
+    const C x = a;
+    const C y = b;
+    if (y == 0 || y == -1)
+      return C{0};
+    const C r = x % y;
+    return ((r != 0) && ((r < 0) != (y < 0))) ? static_cast<C>(r + y) : r;
   }
 }
 
-- 
2.43.0


From 819961716ad0c2fdcb81fcfd1f96fe3aad181cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 09/48] fix: compose affine and linear transforms to an affine
 transform

---
 lib/core/include/scipp/core/spatial_transforms.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..bf15517 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,13 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+// Eigen interprets the right-hand side of this product as a set of column
+// vectors and would apply the translation to each of them.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  return lhs * Eigen::Affine3d(rhs);
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From ec1a430a97396b3bd25f7ac7fd68c7a0ff2fdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 10/48] fix: propagate dimension colors in topological order in
 transform_coords

---
 src/scipp/coords/transform_coords.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/scipp/coords/transform_coords.py b/src/scipp/coords/transform_coords.py
index adc20db..8b9e6b6 100644
--- a/src/scipp/coords/transform_coords.py
+++ b/src/scipp/coords/transform_coords.py
@@ -310,17 +310,17 @@ def _color_dims(graph: Graph, dim_coords: set[str]) -> dict[str, dict[str, Fract
     }
     for dim in dim_coords:
         colors[dim][dim] = Fraction(1, 1)
-        depth_first_stack = [dim]
-        while depth_first_stack:
-            coord = depth_first_stack.pop()
-            children = tuple(graph.children_of(coord))
-            for child in children:
-                # test for produced dim coords
-                if child not in dim_coords:
+    # Process nodes topologically such that all contributions to a node
+    # have been added up before it propagates its color.
+    for coord in graph.nodes_topologically():
+        children = tuple(graph.children_of(coord))
+        for child in children:
+            # test for produced dim coords
+            if child not in dim_coords:
+                for dim in dim_coords:
                     colors[child][dim] += colors[coord][dim] * Fraction(
                         1, len(children)
                     )
-            depth_first_stack.extend(children)
 
     return colors
 
-- 
2.43.0


From 2bb234c1f5dc5ed2a6942e9243d5691c5280c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 11/48] fix: keep all outputs of renaming a dropped coord in
 transform_coords

---
 src/scipp/coords/rule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scipp/coords/rule.py b/src/scipp/coords/rule.py
index b7c5e48..be11c05 100644
--- a/src/scipp/coords/rule.py
+++ b/src/scipp/coords/rule.py
@@ -100,9 +100,10 @@ class RenameRule(Rule):
     def __call__(self, coords: _CoordProvider) -> dict[str, Coord]:
         # Shallow copy the _Coord object to allow the alias to have
         # a different alignment and usage count than the original.
-        return {
-            out_name: copy(coords.consume(self._in_name)) for out_name in self.out_names
-        }
+        # Consume the input only once, regardless of the number of outputs,
+        # because the usage count tracks the number of rules using the input.
+        coord = coords.consume(self._in_name)
+        return {out_name: copy(coord) for out_name in self.out_names}
 
     @property
     def dependencies(self) -> tuple[str, ...]:
-- 
2.43.0


From 753b10c5be85f822830abb884492e60b4c832903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 12/48] fix: store aliases of event coords of sliced data in
 transform_coords

---
 src/scipp/coords/transform_coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scipp/coords/transform_coords.py b/src/scipp/coords/transform_coords.py
index 8b9e6b6..1fa1d59 100644
--- a/src/scipp/coords/transform_coords.py
+++ b/src/scipp/coords/transform_coords.py
@@ -287,9 +287,11 @@ def _store_coord(da: DataArray, name: str, coord: Coord) -> None:
             try:
                 store(da.bins, coord.event)
             except (DimensionError, VariableError):
-                # Thrown on mismatching bin indices, e.g. slice
+                # Thrown on mismatching bin indices, e.g. slice.
+                # The coord may itself refer to a slice of the original buffer,
+                # e.g. an alias, so both need to be brought to the same layout.
                 da.data = da.data.copy()
-                store(da.bins, coord.event)
+                store(da.bins, coord.event.copy())
 
 
 def _store_results(da: DataArray, coords: CoordTable, targets: set[str]) -> DataArray:
-- 
2.43.0


From a01d3642e20e679f9613a0cb73664b3db532b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 13/48] fix: pow in-place must not modify its operand if the
 power of the unit is undefined

---
 lib/variable/pow.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 38ee422..5d690f2 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -68,12 +68,19 @@ Variable pow_handle_unit(V &&base, const Variable &exponent,
                                  to_string(exponent.dims()) + ".");
   }
 
+  const auto result_unit =
+      core::CallDType<double, float, int64_t, int32_t>::apply<PowUnit>(
+          exponent.dtype(), base_unit, exponent);
   Variable res = in_place ? std::forward<V>(base) : copy(std::forward<V>(base));
   variableFactory().set_elem_unit(res, units::one);
-  pow_do_transform(res, exponent, true);
-  variableFactory().set_elem_unit(
-      res, core::CallDType<double, float, int64_t, int32_t>::apply<PowUnit>(
-               exponent.dtype(), base_unit, exponent));
+  try {
+    pow_do_transform(res, exponent, true);
+  } catch (...) {
+    // Do not leave `base` with a bad unit if operating in-place.
+    variableFactory().set_elem_unit(res, base_unit);
+    throw;
+  }
+  variableFactory().set_elem_unit(res, result_unit);
   return res;
 }
 
-- 
2.43.0


From b0e84a75d27dd022a1d396761c020d8cc7239adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 14/48] fix: pow with integer output and floating-point
 exponent must not silently do nothing

---
 lib/variable/pow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 5d690f2..54ed309 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -118,6 +118,9 @@ Variable pow(const Variable &base, const Variable &exponent) {
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
+  if (is_int(out.dtype()) && !is_int(exponent.dtype()) && !is_bins(exponent))
+    throw except::TypeError("Cannot raise to a non-integer power in-place with "
+                            "an integer output.");
   copy(astype(base, out.dtype(), CopyPolicy::TryAvoid), out);
   pow_handle_dtype(out, exponent, true);
   return out;
-- 
2.43.0


From 71c3ed18a9170fc32c3b16e5886432e2c902341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 15/48] fix: setVariances must match elements of slices and
 transposed variables by position

---
 lib/variable/variable.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index a8e8368..e1b752d 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -307,6 +307,17 @@ void Variable::setVariances(const Variable &v) {
   if (v.is_valid()) {
     core::expect::equals(unit(), v.unit());
     core::expect::equals(dims(), v.dims());
+    if (v.dtype() == dtype() &&
+        (v.is_slice() || v.array_params().strides() != m_strides)) {
+      // The model takes over the underlying buffer of `v`, so its elements have
+      // to be in the same order as those of this.
+      Variable tmp(*this);
+      tmp.setDataHandle(data().makeDefaultFromParent(dims().volume()));
+      if (has_variances())
+        tmp.data().setVariances(Variable{});
+      copy(v, tmp);
+      return data().setVariances(tmp);
+    }
   }
   data().setVariances(v);
 }
-- 
2.43.0


From 6bb8b9044bed2a9fda827a999a1bc36520a8f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 16/48] fix: detect overlap of in-place operands of different
 element type

---
 lib/variable/include/scipp/variable/transform.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/transform.h b/lib/variable/include/scipp/variable/transform.h
index 8a41ee0..3ead598 100644
--- a/lib/variable/include/scipp/variable/transform.h
+++ b/lib/variable/include/scipp/variable/transform.h
@@ -476,7 +476,11 @@ constexpr auto overlaps = [](const auto &a, const auto &b) {
                                typename std::decay_t<decltype(b)>::value_type>)
     return a.values().overlaps(b.values());
   else
-    return false;
+    // Different value types can share memory if one of them is a view of
+    // structure elements, such as the `x` field of vectors.
+    return a.values().size() != 0 && b.values().size() != 0 &&
+           static_cast<const void *>(a.values().buffer()) ==
+               static_cast<const void *>(b.values().buffer());
 };
 
 /// Helper class wrapping functions for in-place transform.
-- 
2.43.0


From d8da4973156573e4d8bc62a7fa439e0c9bed5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:16 +0000
Subject: [PATCH 17/48] fix: exclusive_scan: keep the previous sum instead of
 subtracting the element again (NaN, inf and rounding leaked into the wrong
 element)

---
 lib/core/include/scipp/core/element/cumulative.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/cumulative.h b/lib/core/include/scipp/core/element/cumulative.h
index dbb3cfa..30d9b80 100644
--- a/lib/core/include/scipp/core/element/cumulative.h
+++ b/lib/core/include/scipp/core/element/cumulative.h
@@ -17,8 +17,9 @@ constexpr auto exclusive_scan = overloaded{
     arg_list<double, std::tuple<double, float>, int64_t, int32_t>,
     transform_flags::expect_no_variance_arg<0>,
     transform_flags::expect_no_variance_arg<1>, [](auto &sum, auto &x) {
+      const auto previous = sum;
       sum += x;
-      x = sum - x;
+      x = previous;
     }};
 
 constexpr auto inclusive_scan = overloaded{
-- 
2.43.0


From 4ea1fe3b4a48068217f33272511c3274165ea6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 18/48] fix: concat of bin edges when an input has no bins
 compared with the wrong edge

---
 lib/dataset/shape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index b2f0d79..892f77b 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -37,7 +37,8 @@ Variable join_edges(const scipp::span<const Variable> vars, const Dim dim) {
     if (tmp.empty()) {
       tmp.emplace_back(var);
     } else {
-      core::expect::equals(tmp.back().slice({dim, tmp.back().dims()[dim] - 1}),
+      const auto &prev = vars[tmp.size() - 1];
+      core::expect::equals(prev.slice({dim, prev.dims()[dim] - 1}),
                            var.slice({dim, 0}));
       tmp.emplace_back(var.slice({dim, 1, var.dims()[dim]}));
     }
-- 
2.43.0


From 05673dd90ad20deda1dc3133c580891d7ccf2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 19/48] fix: flatten joined bin edges of multi-dimensional
 coords wrongly

---
 lib/dataset/shape.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 892f77b..65015bf 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -214,27 +214,29 @@ Variable fold_bin_edge(const Variable &var, const Dim from_dim,
 Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
+  if (from_labels.size() == 1) // nothing to join
+    return var.rename_dims({{bin_edge_dim, to_dim}});
   const auto data_shape = var.dims()[bin_edge_dim] - 1;
 
+  // Lower and upper edge of every cell, in the order of the flattened cells
+  const auto lower =
+      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
+  const auto upper = flatten(var.slice({bin_edge_dim, 1, data_shape + 1}),
+                             from_labels, to_dim);
+  const auto size = lower.dims()[to_dim];
+
   // Make sure that the bin edges can be joined together
-  const auto front = var.slice({bin_edge_dim, 0});
-  const auto back = var.slice({bin_edge_dim, data_shape});
-  const auto front_flat = flatten(front, front.dims().labels(), to_dim);
-  const auto back_flat = flatten(back, back.dims().labels(), to_dim);
-  if (front_flat.slice({to_dim, 1, front.dims().volume()}) !=
-      back_flat.slice({to_dim, 0, back.dims().volume() - 1}))
+  if (size == 0 ||
+      lower.slice({to_dim, 1, size}) != upper.slice({to_dim, 0, size - 1}))
     return {};
 
-  // Make the bulk slice of the coord, leaving out the last bin edge
-  const auto bulk =
-      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
-  auto out_dims = bulk.dims();
   // To make the container of the right size, we increase to_dim by 1
-  out_dims.resize(to_dim, out_dims[to_dim] + 1);
+  auto out_dims = lower.dims();
+  out_dims.resize(to_dim, size + 1);
   auto out = empty(out_dims, var.unit(), var.dtype(), var.has_variances());
-  copy(bulk, out.slice({to_dim, 0, out_dims[to_dim] - 1}));
-  copy(back_flat.slice({to_dim, back.dims().volume() - 1}),
-       out.slice({to_dim, out_dims[to_dim] - 1}));
+  copy(lower, out.slice({to_dim, 0, size}));
+  copy(upper.slice({to_dim, size - 1, size}),
+       out.slice({to_dim, size, size + 1}));
   return out;
 }
 
-- 
2.43.0


From 27f67de4c952f864400fbdbac394c12851b4f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 20/48] fix: fold of an unknown dimension or to a mismatching
 size was silently accepted

---
 lib/core/dimensions.cpp |  2 +-
 lib/dataset/shape.cpp   | 23 +++++++++++------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/core/dimensions.cpp b/lib/core/dimensions.cpp
index 07f5c1e..f8d0c1a 100644
--- a/lib/core/dimensions.cpp
+++ b/lib/core/dimensions.cpp
@@ -154,7 +154,7 @@ Dimensions fold(const Dimensions &old_dims, const Dim from_dim,
     else
       for (const auto &lab : to_dims.labels())
         new_dims.addInner(lab, to_dims[lab]);
-  if (old_dims.volume() != new_dims.volume())
+  if (old_dims[from_dim] != to_dims.volume())
     throw except::DimensionError(
         "Sizes " + to_string(to_dims) +
         " provided to `fold` not compatible with length '" +
diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 65015bf..621f970 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -249,12 +249,23 @@ Dim bin_edge_in_from_labels(const Variable &var, const Dimensions &array_dims,
   return Dim::Invalid;
 }
 
+void expect_dimension_subset(const core::Dimensions &full_set,
+                             const scipp::span<const Dim> &subset) {
+  for (const auto &dim : subset) {
+    if (!full_set.contains(dim)) {
+      throw except::DimensionError{"Expected dimension " + to_string(dim) +
+                                   "to be in " + to_string(full_set)};
+    }
+  }
+}
+
 } // end anonymous namespace
 
 /// Fold a single dimension into multiple dimensions
 /// ['x': 6] -> ['y': 2, 'z': 3]
 DataArray fold(const DataArray &a, const Dim from_dim,
                const Dimensions &to_dims) {
+  expect_dimension_subset(a.dims(), {&from_dim, 1});
   return dataset::transform(a, [&](const auto &var) {
     if (is_edges(a.dims(), var.dims(), from_dim))
       return fold_bin_edge(var, from_dim, to_dims);
@@ -265,18 +276,6 @@ DataArray fold(const DataArray &a, const Dim from_dim,
   });
 }
 
-namespace {
-void expect_dimension_subset(const core::Dimensions &full_set,
-                             const scipp::span<const Dim> &subset) {
-  for (const auto &dim : subset) {
-    if (!full_set.contains(dim)) {
-      throw except::DimensionError{"Expected dimension " + to_string(dim) +
-                                   "to be in " + to_string(full_set)};
-    }
-  }
-}
-} // namespace
-
 /// Flatten multiple dimensions into a single dimension:
 /// ['y', 'z'] -> ['x']
 DataArray flatten(const DataArray &a,
-- 
2.43.0


From 1828eeb6ab635b9d2de2697a2c3fc982123a25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 21/48] fix: copying between binned variables with different
 buffer types is refused instead of undefined

---
 lib/variable/bins.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index a79bafa..0a6a3ac 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -21,8 +21,10 @@ namespace scipp::variable {
 /// This is using transform, so only data (no coords, etc.) is copied, but we
 /// only use this for buffers of type Variable.
 void copy_data(const Variable &src, Variable &dst) {
-  assert(src.dtype() == dtype<bucket<Variable>>);
-  assert(dst.dtype() == dtype<bucket<Variable>>);
+  if (src.dtype() != dtype<bucket<Variable>> ||
+      dst.dtype() != dtype<bucket<Variable>>)
+    throw except::TypeError("Cannot copy from " + to_string(src.dtype()) +
+                            " to " + to_string(dst.dtype()) + ".");
   transform_in_place<double, float, int64_t, int32_t, bool, std::string,
                      core::time_point, scipp::index_pair, Eigen::Vector3d,
                      Eigen::Matrix3d, Eigen::Affine3d, core::Translation,
-- 
2.43.0


From 28f51f946b9473345e7a5ceeeb3e9e1405c8f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 22/48] fix: empty buffers of different element type do not
 overlap

---
 lib/variable/include/scipp/variable/transform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/transform.h b/lib/variable/include/scipp/variable/transform.h
index 3ead598..dd8b965 100644
--- a/lib/variable/include/scipp/variable/transform.h
+++ b/lib/variable/include/scipp/variable/transform.h
@@ -478,7 +478,8 @@ constexpr auto overlaps = [](const auto &a, const auto &b) {
   else
     // Different value types can share memory if one of them is a view of
     // structure elements, such as the `x` field of vectors.
-    return a.values().size() != 0 && b.values().size() != 0 &&
+    return a.values().buffer() && a.values().size() != 0 &&
+           b.values().size() != 0 &&
            static_cast<const void *>(a.values().buffer()) ==
                static_cast<const void *>(b.values().buffer());
 };
-- 
2.43.0


From b50376f9c916e0bdf25ec49d80afd685f4b5e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 23/48] fix: bin and group of tables with strided columns or
 edges

---
 lib/dataset/bin.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..1fbb4e6 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -111,8 +111,9 @@ public:
 
   Variable apply_to_variable(const Variable &var,
                              Variable &&out = {}) const override {
-    const auto &[input_indices, dim, content] = var.constituents<Variable>();
-    static_cast<void>(input_indices);
+    const auto &[input_indices, dim, buffer] = var.constituents<Variable>();
+    // Columns may be strided views, subspans require contiguous data.
+    const auto content = as_contiguous(buffer, dim);
     // The optional `out` argument is used to avoid creating a temporary buffer
     // when TwoStageMapper is applied to a series of columns of matching dtype.
     if (!out.is_valid() || out.dtype() != content.dtype() ||
@@ -121,7 +122,8 @@ public:
     else
       out.setUnit(content.unit());
     auto out_subspans = subspan_view(out, dim, m_filtered_input_bin_ranges);
-    map_to_bins(out_subspans, as_subspan_view(var), m_offsets,
+    const auto contiguous = make_bins_no_validate(input_indices, dim, content);
+    map_to_bins(out_subspans, as_subspan_view(contiguous), m_offsets,
                 as_subspan_view(std::as_const(m_indices)));
     return out;
   }
@@ -344,12 +346,13 @@ public:
             bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
+          const auto edges = as_contiguous(key, dim);
           const bool histogram =
               bin_coord.dims()[dim] ==
               (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
           auto begin =
-              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
-          auto end = histogram ? end_edge(right_edge(bin_coord), key)
+              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, edges);
+          auto end = histogram ? end_edge(right_edge(bin_coord), edges)
                                : begin + 2 * units::none;
           // When we have bin edges (of length 2) for a dimension that is not
           // a dimension of the input it needs to be squeezed to avoid problems
@@ -364,7 +367,7 @@ public:
           m_offsets = begin * inner_volume;
           // Mask out any output bin edges that need not be considered since
           // there is no overlap between given input and output bin.
-          const auto masked_key = make_bins_no_validate(indices_, dim, key);
+          const auto masked_key = make_bins_no_validate(indices_, dim, edges);
           update_indices_by_binning(indices, get_coord(dim), masked_key,
                                     linspace);
         } else {
-- 
2.43.0


From ada04e3b7d03035aa61ebb7cdd7f549dd8b1f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 24/48] fix: bin with repeated edges when input bins have zero
 width

---
 lib/dataset/bin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 1fbb4e6..865d7e7 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -9,10 +9,12 @@
 #include "scipp/variable/bin_detail.h"
 #include "scipp/variable/bin_util.h"
 #include "scipp/variable/bins.h"
+#include "scipp/variable/comparison.h"
 #include "scipp/variable/cumulative.h"
 #include "scipp/variable/reduction.h"
 #include "scipp/variable/shape.h"
 #include "scipp/variable/subspan_view.h"
+#include "scipp/variable/util.h"
 #include "scipp/variable/variable_factory.h"
 
 #include "scipp/dataset/bin.h"
@@ -354,6 +356,9 @@ public:
               begin_edge(histogram ? left_edge(bin_coord) : bin_coord, edges);
           auto end = histogram ? end_edge(right_edge(bin_coord), edges)
                                : begin + 2 * units::none;
+          // Input bins of zero width may yield end < begin + 2.
+          const auto min_end = begin + 2 * units::none;
+          end = where(less(end, min_end), min_end, end);
           // When we have bin edges (of length 2) for a dimension that is not
           // a dimension of the input it needs to be squeezed to avoid problems
           // in various places later on.
-- 
2.43.0


From 84a843e909f2468b341079ec243466e294206145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 25/48] fix: pre-selection of output bins in bin() must not
 lose events

Bin-coords that are not bin-edges do not bound event-coords, and offsets
are only meaningful if the pre-selected dim is the outermost one.
---
 lib/dataset/bin.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 865d7e7..e414464 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -314,6 +314,7 @@ public:
     };
     m_offsets = makeVariable<scipp::index>(Values{0}, units::none);
     m_nbin = dims().volume() * units::none;
+    scipp::index outer_volume = 1;
     for (const auto &[action, dim, key] : m_actions) {
       if (action == AxisAction::Group)
         update_indices_by_grouping(indices, get_coord(dim), key);
@@ -343,15 +344,21 @@ public:
         // algorithm, `indices`, containing the index of the target bin for
         // every input event. This is unrelated and varies independently,
         // depending on parameters of the input.
+        const auto has_bin_edges = [&]() {
+          return bin_coords.at(dim).dims()[dim] ==
+                 (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
+        };
+        // Offsets are in units of the volume of the inner dims, i.e., output
+        // bins can be pre-selected only for the outermost dim. A bin-coord that
+        // is not a bin-edge does not bound the corresponding event-coord.
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
-            bin_coords.at(dim).dims().contains(dim) &&
+            outer_volume == 1 && bin_coords.at(dim).dims().contains(dim) &&
+            (has_bin_edges() || !coords.count(dim)) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const auto edges = as_contiguous(key, dim);
-          const bool histogram =
-              bin_coord.dims()[dim] ==
-              (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
+          const bool histogram = has_bin_edges();
           auto begin =
               begin_edge(histogram ? left_edge(bin_coord) : bin_coord, edges);
           auto end = histogram ? end_edge(right_edge(bin_coord), edges)
@@ -396,6 +403,7 @@ public:
       } else if (action == AxisAction::Join) {
         ; // target bin 0 for all
       }
+      outer_volume *= m_dims[dim];
     }
   }
 
-- 
2.43.0


From 9495aadc1fe467063a17b771e47d08fc9b0910dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:01 +0000
Subject: [PATCH 26/48] fix: reject histogram along a coord with bin edges
 along another dimension

Such a coord is longer than the data, i.e., the weights were read out of bounds.
---
 lib/dataset/histogram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/dataset/histogram.cpp b/lib/dataset/histogram.cpp
index 2f7187a..7e075ef 100644
--- a/lib/dataset/histogram.cpp
+++ b/lib/dataset/histogram.cpp
@@ -47,6 +47,10 @@ DataArray histogram(const DataArray &events, const Variable &binEdges) {
         dim, con_bin_edges);
   } else if (!is_histogram(events, dim)) {
     const auto event_dim = events.coords().dim_of(dim);
+    if (is_edges(events.dims(), events.coords()[dim].dims(), event_dim))
+      throw except::BinEdgeError("Cannot histogram along coord '" +
+                                 to_string(dim) + "' with bin edges along '" +
+                                 to_string(event_dim) + "'.");
     result = apply_and_drop_dim(
         events,
         [dim](const DataArray &events_, const Dim event_dim_,
-- 
2.43.0


From 8793943c5daf01a32e4054d953b3ec1fbf2341af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:01 +0000
Subject: [PATCH 27/48] fix: rebin with time-point edges and with bins of zero
 width

The fraction of overlap was computed with integers for time points, i.e., all
partial overlaps were lost, and the overlap with an empty bin was NaN.
---
 lib/core/include/scipp/core/element/rebin.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..63ab558 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -46,7 +46,14 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          // time_point differences are integers, avoid integer division. Old
+          // bins of zero width are entirely inside the new bin.
+          using Width = std::decay_t<decltype(delta)>;
+          using Scale = std::conditional_t<std::is_floating_point_v<Width>,
+                                           Width, double>;
+          const auto scale = owidth == Width{0}
+                                 ? Scale{1}
+                                 : static_cast<Scale>(delta) / owidth;
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
-- 
2.43.0


From 510ce91894f1e7a665794d9855475fa017b56204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:01 +0000
Subject: [PATCH 28/48] fix: variances, units and zero-width bins in rebin of
 non-inner dimensions

Compute the same result as for the inner dimension.
---
 lib/variable/rebin.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..765cfa0 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -39,8 +39,18 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
     const auto owidth = std::abs(xo_high - xo_low);
-    slice += oldT.slice({dim, iold}) *
-             ((delta / owidth) * (slice.unit() / oldT.unit()));
+    // Old bins of zero width are entirely inside the new bin.
+    const auto scale = (owidth == 0 ? 1.0 : delta / owidth) *
+                       (slice.unit() / oldT.unit());
+    const auto old = oldT.slice({dim, iold});
+    auto contribution = old * scale;
+    // As in element::rebin, variances scale like values, i.e., like counts.
+    if (old.has_variances()) {
+      auto vars = variances(old) * scale;
+      vars.setUnit(contribution.unit());
+      contribution.setVariances(vars);
+    }
+    slice += contribution;
   };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
@@ -149,6 +159,9 @@ Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
     auto dims = var.dims();
     dims.resize(dim, newEdges.dims()[dim] - 1);
     rebinned = Variable(astype(Variable(var, Dimensions{}), out_type), dims);
+    if (newEdges.unit() != oldEdges.unit())
+      throw except::UnitError(
+          "Input and output bin edges must have the same unit.");
     if (newEdges.dims().ndim() > 1)
       throw std::runtime_error(
           "Not inner rebin works only for 1d coordinates for now.");
-- 
2.43.0


From 49bc4a35868a0afc8b14d0c58369816d4bb4d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 29/48] fix: lookup in functions whose dimension is not
 contiguous in memory

---
 lib/dataset/bins.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 7dc350f..f125e18 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -203,8 +203,8 @@ bool is_bins(const Dataset &dataset) {
 Variable lookup_previous(const DataArray &function, const Variable &x, Dim dim,
                          const std::optional<Variable> &fill_value) {
   const auto fill = make_fill(function, fill_value);
-  const auto &coord = function.meta()[dim];
-  const auto data = masked_data(function, dim, fill);
+  const auto coord = as_contiguous(function.meta()[dim], dim);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (!allsorted(coord, dim))
     throw except::DataArrayError(
@@ -367,11 +367,11 @@ Variable map(const DataArray &function, const Variable &x, Dim dim,
   const auto fill = make_fill(function, fill_value);
   if (dim == Dim::Invalid)
     dim = edge_dimension(function);
-  const auto &edges = function.meta()[dim];
+  const auto edges = as_contiguous(function.meta()[dim], dim);
   if (!is_edges(function.dims(), edges.dims(), dim))
     throw except::BinEdgeError(
         "Function used as lookup table in map operation must be a histogram");
-  const auto data = masked_data(function, dim, fill);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (all(islinspace(edges, dim)).value<bool>()) {
     return variable::transform(x, subspan_view(edges, dim), weights, fill,
-- 
2.43.0


From 96686eeeeff0b1027433e7eeea46d336860ca5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 30/48] fix: bins.scale must not modify masks on failure nor
 copy masks of its dimension

Masks were combined before an operation that can fail. Masks depending on the
dimension of the histogram are applied, their first slice must not become a mask
of the output.
---
 lib/dataset/bins.cpp                          | 40 ++++++++++++-------
 .../include/scipp/variable/transform.h        |  7 ++++
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index f125e18..dde0412 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -389,23 +389,33 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
     dim = edge_dimension(histogram);
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
-  // scale applies masks along dim but others are kept
-  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
-  const auto &edges = histogram.meta()[dim];
-  const auto masked = masked_data(histogram, dim);
+  const auto edges = as_contiguous(histogram.meta()[dim], dim);
+  const auto masked = as_contiguous(masked_data(histogram, dim), dim);
   const auto weights = subspan_view(masked, dim);
-  if (all(islinspace(edges, dim)).value<bool>()) {
-    transform_in_place(data, coord, subspan_view(edges, dim), weights,
-                       core::element::event::map_and_mul_linspace,
-                       "bins.scale");
-  } else {
-    if (!allsorted(edges, dim))
-      throw except::BinEdgeError("Bin edges of histogram must be sorted.");
-    transform_in_place(data, coord, subspan_view(edges, dim), weights,
-                       core::element::event::map_and_mul_sorted_edges,
-                       "bins.scale");
-  }
+  const auto edge_spans = subspan_view(edges, dim);
+  const bool linspace = all(islinspace(edges, dim)).value<bool>();
+  if (!linspace && !allsorted(edges, dim))
+    throw except::BinEdgeError("Bin edges of histogram must be sorted.");
+  const auto scale_impl = [&](auto transform) {
+    if (linspace)
+      transform(data, coord, edge_spans, weights,
+                core::element::event::map_and_mul_linspace, "bins.scale");
+    else
+      transform(data, coord, edge_spans, weights,
+                core::element::event::map_and_mul_sorted_edges, "bins.scale");
+  };
+  // Dry run to avoid modifying masks if the operation fails.
+  scale_impl(
+      [](auto &&...args) { variable::dry_run::transform_in_place(args...); });
+  // scale applies masks along dim but others are kept
+  const auto slice = histogram.slice({dim, 0});
+  Masks masks(slice.dims(), {});
+  for (const auto &[name, mask] : histogram.masks())
+    if (!mask.dims().contains(dim))
+      masks.set(name, mask);
+  union_or_in_place(array.masks(), masks);
+  scale_impl([](auto &&...args) { variable::transform_in_place(args...); });
 }
 } // namespace scipp::dataset::buckets
diff --git a/lib/variable/include/scipp/variable/transform.h b/lib/variable/include/scipp/variable/transform.h
index dd8b965..07d7d7a 100644
--- a/lib/variable/include/scipp/variable/transform.h
+++ b/lib/variable/include/scipp/variable/transform.h
@@ -738,6 +738,13 @@ void transform_in_place(Var &&var, const Variable &other, Op op,
   in_place<true>::transform<TypePairs...>(op, name, std::forward<Var>(var),
                                           other);
 }
+template <class... TypePairs, class Var, class Op>
+void transform_in_place(Var &&var, const Variable &var1, const Variable &var2,
+                        const Variable &var3, Op op,
+                        const std::string_view &name) {
+  in_place<true>::transform<TypePairs...>(op, name, std::forward<Var>(var),
+                                          var1, var2, var3);
+}
 } // namespace dry_run
 
 namespace detail {
-- 
2.43.0


From 35c6019eb9877a5e7de6a1a1b04014278403efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:02 +0000
Subject: [PATCH 31/48] fix: groupby must put all NaN keys in one group

The hash depends on sign and payload of NaN, i.e., NaN resulting from different
operations ended up in different groups.
---
 lib/dataset/groupby.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 579e701..d9b3eed 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -242,7 +242,7 @@ template <class T> struct MakeGroups {
     const auto &values = key.values<T>();
 
     const auto dim = key.dim();
-    std::unordered_map<T, GroupByGrouping::group, std::hash<T>,
+    std::unordered_map<T, GroupByGrouping::group, nan_sensitive_hash<T>,
                        nan_sensitive_equal<T>>
         indices;
     const auto end = values.end();
@@ -259,6 +259,16 @@ template <class T> struct MakeGroups {
       indices[group_value].emplace_back(dim, begin, i);
     }
 
+template <class T> struct nan_sensitive_hash {
+  // All NaN are considered equal, independent of sign and payload.
+  std::size_t operator()(const T &x) const {
+    if constexpr (std::is_floating_point_v<T>)
+      if (std::isnan(x))
+        return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
+    return std::hash<T>{}(x);
+  }
+};
+
     std::vector<T> keys;
     std::vector<GroupByGrouping::group> groups;
     keys.reserve(scipp::size(indices));
-- 
2.43.0


From d95ecf5b6df9be138a9e0be172cd0d77b2d94b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:02 +0000
Subject: [PATCH 32/48] fix: groupby.mean with multi-dimensional masks

---
 lib/dataset/groupby.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index d9b3eed..48cdc8d 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -177,17 +177,24 @@ template <class T> T GroupBy<T>::mean(const Dim reductionDim) const {
     if (is_bins(data))
       throw except::NotImplementedError(
           "groupby.mean does not support binned data yet.");
-    auto scale = makeVariable<double>(Dims{dim()}, Shape{size()});
-    const auto scaleT = scale.template values<double>();
     const auto mask = irreducible_mask(data.masks(), reductionDim);
-    for (scipp::index group = 0; group < size(); ++group)
+    Dimensions dims(dim(), size());
+    if (mask.is_valid())
+      for (const auto &label : mask.dims().labels())
+        if (label != reductionDim)
+          dims.addInner(label, mask.dims()[label]);
+    auto scale = makeVariable<double>(dims);
+    for (scipp::index group = 0; group < size(); ++group) {
+      auto count = scale.slice({dim(), group});
       for (const auto &slice : groups()[group]) {
         // N contributing to each slice
-        scaleT[group] += slice.end() - slice.begin();
+        count += static_cast<double>(slice.end() - slice.begin()) *
+                 scipp::units::one;
         // N masks for each slice, that need to be subtracted
         if (mask.is_valid()) {
-          const auto masks_sum = variable::sum(mask.slice(slice), reductionDim);
-          scaleT[group] -= masks_sum.template value<int64_t>();
+          auto masked = variable::sum(mask.slice(slice), reductionDim);
+          masked.setUnit(scipp::units::one);
+          count -= masked;
         }
       }
     return reciprocal(std::move(scale));
@@ -215,6 +222,7 @@ template <class T> T GroupBy<T>::mean(const Dim reductionDim) const {
 namespace {
 template <class T> struct NanSensitiveLess {
   // Compare two values such that x < NaN for all x != NaN.
+    }
   // Note: if changing this in future, ensure it meets the requirements from
   // https://en.cppreference.com/w/cpp/named_req/Compare, as it is used as
   // the comparator for keys in a map.
-- 
2.43.0


From f4afc0614846b2b917cb52a951d3cdd3497d3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:02 +0000
Subject: [PATCH 33/48] fix: groupby.sum of masked boolean data

---
 lib/dataset/groupby.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 48cdc8d..ae94a8a 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -72,8 +72,11 @@ template <class Op, class Groups>
 void reduce_(Op op, const Dim reductionDim, const Variable &out_data,
              const DataArray &data, const Dim dim, const Groups &groups,
              const FillValue fill) {
+  // Same dtype as data, i.e., in case of bool also for FillValue::ZeroNotBool
   const auto mask_replacement =
-      special_like(Variable(data.data(), Dimensions{}), fill);
+      fill == FillValue::ZeroNotBool
+          ? zero_like(data.data())
+          : special_like(Variable(data.data(), Dimensions{}), fill);
   auto mask = irreducible_mask(data.masks(), reductionDim);
   const auto process = [&](const auto &range) {
     // Apply to each group, storing result in output slice
-- 
2.43.0


From 3ceb76070b4efd32bceedc20024c3c0d88f6889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:03 +0000
Subject: [PATCH 34/48] fix: groupby.concat must use the groups instead of
 grouping again by a coord

Grouping again looked for a coord with the name of the bins, which is not
necessarily the one used for grouping, and failed if the grouping coord had the
name of the reduced dimension.
---
 lib/dataset/bin.cpp     |  4 ++--
 lib/dataset/groupby.cpp | 52 +++++++++++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index e414464..62ec3fe 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -575,11 +575,11 @@ DataArray groupby_concat_bins(const DataArray &array, const Variable &edges,
   builder.erase(reductionDim);
   const auto dims = array.dims();
   for (const auto &dim : dims.labels())
-    if (array.meta().contains(dim)) {
+    if (dim != reductionDim && array.meta().contains(dim)) {
       if (array.meta()[dim].dims().ndim() != 1 &&
           array.meta()[dim].dims().contains(reductionDim))
         builder.join(dim, array.meta()[dim]);
-      else if (dim != reductionDim)
+      else
         builder.existing(dim, array.dims()[dim]);
     }
 
diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index ae94a8a..7cec229 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -115,11 +115,33 @@ T GroupBy<T>::reduce(Op op, const Dim reductionDim,
 ///
 /// This only supports binned data.
 template <class T> T GroupBy<T>::concat(const Dim reductionDim) const {
+  // Slices were assigned to groups based on a coord (or some other key), which
+  // may have the name of reductionDim, or a name differing from that of the
+  // bins. Concatenate based on the index of the group instead.
+  const auto group_dim = Dim::InternalSort;
+  auto indices = makeVariable<scipp::index>(Dims{group_dim}, Shape{size()},
+                                            scipp::units::none);
+  auto index_values = indices.template values<scipp::index>();
+  std::iota(index_values.begin(), index_values.end(), scipp::index{0});
   const auto conc = [&](const auto &data) {
-    if (key().dims().volume() == scipp::size(groups()))
-      return groupby_concat_bins(data, {}, key(), reductionDim);
-    else
-      return groupby_concat_bins(data, key(), {}, reductionDim);
+    const auto slice_dim = m_grouping.sliceDim();
+    auto group = makeVariable<scipp::index>(
+        Dims{slice_dim}, Shape{data.dims()[slice_dim]}, scipp::units::none);
+    auto group_values = group.template values<scipp::index>();
+    std::fill(group_values.begin(), group_values.end(), scipp::index{-1});
+    for (scipp::index i = 0; i < size(); ++i)
+      for (const auto &slice : groups()[i]) {
+        core::expect::validSlice(group.dims(), slice);
+        std::fill(group_values.begin() + slice.begin(),
+                  group_values.begin() + slice.end(), i);
+      }
+    DataArray tmp(data);
+    tmp.coords().set(group_dim, group);
+    auto out = groupby_concat_bins(tmp, {}, indices, reductionDim);
+    out.coords().erase(group_dim);
+    out = out.rename_dims({{group_dim, dim()}});
+    out.coords().set(dim(), key());
+    return out;
   };
   if constexpr (std::is_same_v<T, DataArray>) {
     return conc(m_data);
@@ -200,6 +222,7 @@ template <class T> T GroupBy<T>::mean(const Dim reductionDim) const {
           count -= masked;
         }
       }
+    }
     return reciprocal(std::move(scale));
   };
 
@@ -225,7 +248,6 @@ template <class T> T GroupBy<T>::mean(const Dim reductionDim) const {
 namespace {
 template <class T> struct NanSensitiveLess {
   // Compare two values such that x < NaN for all x != NaN.
-    }
   // Note: if changing this in future, ensure it meets the requirements from
   // https://en.cppreference.com/w/cpp/named_req/Compare, as it is used as
   // the comparator for keys in a map.
@@ -237,6 +259,16 @@ template <class T> struct NanSensitiveLess {
   }
 };
 
+template <class T> struct nan_sensitive_hash {
+  // All NaN are considered equal, independent of sign and payload.
+  std::size_t operator()(const T &x) const {
+    if constexpr (std::is_floating_point_v<T>)
+      if (std::isnan(x))
+        return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
+    return std::hash<T>{}(x);
+  }
+};
+
 template <class T> struct nan_sensitive_equal {
   bool operator()(const T &a, const T &b) const {
     if constexpr (std::is_floating_point_v<T>)
@@ -270,16 +302,6 @@ template <class T> struct MakeGroups {
       indices[group_value].emplace_back(dim, begin, i);
     }
 
-template <class T> struct nan_sensitive_hash {
-  // All NaN are considered equal, independent of sign and payload.
-  std::size_t operator()(const T &x) const {
-    if constexpr (std::is_floating_point_v<T>)
-      if (std::isnan(x))
-        return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
-    return std::hash<T>{}(x);
-  }
-};
-
     std::vector<T> keys;
     std::vector<GroupByGrouping::group> groups;
     keys.reserve(scipp::size(indices));
-- 
2.43.0


From 53c879fbeede5e1f500a99947647c99fd00745b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:11 +0000
Subject: [PATCH 35/48] fix: set slice of data array or dataset validates masks
 and dims before modifying anything

---
 lib/dataset/data_array.cpp | 9 ++++-----
 lib/dataset/dataset.cpp    | 3 +++
 lib/dataset/sized_dict.cpp | 2 ++
 lib/variable/variable.cpp  | 1 +
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..044713b 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -140,12 +140,11 @@ void DataArray::validateSlice(const Slice &s, const DataArray &array) const {
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const DataArray &array) {
-  // validateSlice, but not masks as otherwise repeated
-  expect::coords_are_superset(slice(s), array, "");
-  data().validateSlice(s, array.data());
-  // Apply changes
+  // Validate everything, including masks, before modifying anything
+  validateSlice(s, array);
+  setSlice(s, array.data());
   masks().setSlice(s, array.masks());
-  return setSlice(s, array.data());
+  return *this;
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const Variable &var) {
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index bdc19b0..641ab3e 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -257,6 +257,9 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
+  // Validate slice on all items as a dry-run
+  for (const auto &[name, item] : m_data)
+    item.data().validateSlice(s, data);
   for (auto &&item : *this)
     item.setSlice(s, data);
   return *this;
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index bc1e31a..fa86bf3 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -316,6 +316,8 @@ void SizedDict<Key, Value>::validateSlice(const Slice &s,
                                    "' via slice since it is implicitly "
                                    "broadcast along the slice dimension '" +
                                    to_string(s.dim()) + "'.");
+    } else if (!var.is_readonly() && var.dims().contains(s.dim())) {
+      var.validateSlice(s, item);
     }
   }
 }
diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index e1b752d..d4f134a 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -227,6 +227,7 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             to_string(variableFactory().elem_dtype(data)) +
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
+  expect::includes(slice(s).dims(), data.dims());
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From 255003600872eaaef689fdc7f2fd74c3f80ff60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:11 +0000
Subject: [PATCH 36/48] fix: in-place operations modify masks only if the
 operation succeeds

---
 lib/dataset/arithmetic.cpp                  | 1 +
 lib/dataset/bins.cpp                        | 3 ++-
 lib/dataset/dataset.cpp                     | 8 +++++++-
 lib/dataset/include/scipp/dataset/dataset.h | 4 ++++
 lib/templates/dataset_inplace.cpp.in        | 8 ++++++--
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 929e6f6..32d7a8b 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -27,6 +27,7 @@ template <class T, class Op> void dry_run_op(T &&a, const Variable &b, Op op) {
 
 template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   expect::coords_are_superset(a, b, "");
+  dry_run_union_or_in_place(a.masks(), b.masks());
   dry_run_op(a, b.data(), op);
 }
 
diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index dde0412..c8c0347 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -313,10 +313,11 @@ void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
 
 void append(DataArray &a, const DataArray &b) {
   expect::coords_are_superset(a, b, "bins.append");
-  union_or_in_place(a.masks(), b.masks());
+  dry_run_union_or_in_place(a.masks(), b.masks());
   auto data = a.data();
   append(data, b.data());
   a.setData(data);
+  union_or_in_place(a.masks(), b.masks());
 }
 
 Variable histogram(const Variable &data, const Variable &binEdges) {
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 641ab3e..7537d7b 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -340,7 +340,8 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
   return out;
 }
 
-void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+void dry_run_union_or_in_place(const Masks &currentMasks,
+                               const Masks &otherMasks) {
   using core::to_string;
   using units::to_string;
 
@@ -364,9 +365,14 @@ void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
                 currentMasks[key].unit() != scipp::units::none)) {
       throw except::UnitError(" Cannot combine a unit-specified mask '" + key +
                               "' in operation");
+    } else if (it != currentMasks.end()) {
+      scipp::expect::includes(it->second.dims(), item.dims());
     }
   }
+}
 
+void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+  dry_run_union_or_in_place(currentMasks, otherMasks);
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end()) {
diff --git a/lib/dataset/include/scipp/dataset/dataset.h b/lib/dataset/include/scipp/dataset/dataset.h
index 4aff536..36bb592 100644
--- a/lib/dataset/include/scipp/dataset/dataset.h
+++ b/lib/dataset/include/scipp/dataset/dataset.h
@@ -298,6 +298,10 @@ SCIPP_DATASET_EXPORT
 typename Masks::holder_type union_or(const Masks &currentMasks,
                                      const Masks &otherMasks);
 
+/// Check that union_or_in_place will succeed, without modifying the masks.
+SCIPP_DATASET_EXPORT void dry_run_union_or_in_place(const Masks &masks,
+                                                    const Masks &otherMasks);
+
 /// Union the masks of the two proxies.
 /// If any of the masks repeat they are OR'ed.
 /// The result is stored in the first view.
diff --git a/lib/templates/dataset_inplace.cpp.in b/lib/templates/dataset_inplace.cpp.in
index c91e946..a75532b 100644
--- a/lib/templates/dataset_inplace.cpp.in
+++ b/lib/templates/dataset_inplace.cpp.in
@@ -15,8 +15,10 @@ DataArray &@NAME@(DataArray &lhs, const Variable &rhs) {
 }
 DataArray &@NAME@(DataArray &lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
+  // Modify masks only if the operation succeeds.
+  dry_run_union_or_in_place(lhs.masks(), rhs.masks());
   @NAME@(lhs.data(), rhs.data());
+  union_or_in_place(lhs.masks(), rhs.masks());
   return lhs;
 }
 DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
@@ -25,8 +27,10 @@ DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
 }
 DataArray @NAME@(DataArray &&lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
+  dry_run_union_or_in_place(lhs.masks(), rhs.masks());
+  @NAME@(lhs.data(), rhs.data());
   union_or_in_place(lhs.masks(), rhs.masks());
-  return @NAME@(std::move(lhs), rhs.data());
+  return std::move(lhs);
 }
 
 } // namespace scipp::dataset
-- 
2.43.0


From a0071d2c266910de6bca312cbf8424728d6a4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 37/48] fix: sort of a dataset requires a key of matching
 length

---
 lib/dataset/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/sort.cpp b/lib/dataset/sort.cpp
index 82b269f..934ff49 100644
--- a/lib/dataset/sort.cpp
+++ b/lib/dataset/sort.cpp
@@ -59,7 +59,7 @@ Variable indices_for_sorting(const Variable &key, const SortOrder order) {
       core::time_point>::apply<IndicesForSorting>(key.dtype(), key, order);
 }
 
-void require_same_shape(const Dimensions &var_dims, const Dimensions &key_dims,
+void require_same_shape(const Sizes &var_dims, const Sizes &key_dims,
                         const Dim dim) {
   if (var_dims[dim] != key_dims[dim])
     throw except::DimensionError(
@@ -91,6 +91,7 @@ DataArray sort(const DataArray &array, const Dim &key, const SortOrder order) {
 /// Return a Dataset sorted based on key.
 Dataset sort(const Dataset &dataset, const Variable &key,
              const SortOrder order) {
+  require_same_shape(dataset.sizes(), key.dims(), key.dim());
   return extract_ranges(indices_for_sorting(key, order), dataset, key.dim());
 }
 
-- 
2.43.0


From 2f733a8f5f35b5e309ea17d7381b66dc83a57f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 38/48] fix: extract accepts non-contiguous conditions

---
 lib/dataset/extract.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/extract.cpp b/lib/dataset/extract.cpp
index c3ee1c8..45ed6f2 100644
--- a/lib/dataset/extract.cpp
+++ b/lib/dataset/extract.cpp
@@ -101,7 +101,9 @@ template <class T> T extract_impl(const T &obj, const Variable &condition) {
         " must be be included in the dimensions of the sliced object " +
         to_string(obj.dims()) + '.');
 
-  auto values = condition.values<bool>().as_span();
+  // copy since the condition may be non-contiguous
+  const auto contiguous = copy(condition);
+  const auto values = contiguous.values<bool>().as_span();
   std::vector<scipp::index_pair> indices;
   for (scipp::index i = 0; i < scipp::size(values); ++i) {
     if (i > 0 && values[i - 1] == values[i])
-- 
2.43.0


From a33a40b7aaac76137cd9f3360721b6b25aafd7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 39/48] fix: sort of a variable places NaN last instead of
 comparing it

---
 lib/core/include/scipp/core/element/sort.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element/sort.h b/lib/core/include/scipp/core/element/sort.h
index 51e72e3..fd19889 100644
--- a/lib/core/include/scipp/core/element/sort.h
+++ b/lib/core/include/scipp/core/element/sort.h
@@ -15,6 +15,20 @@
 namespace scipp::core::element {
 
 namespace {
+// NaN is placed last. Comparing NaN directly would not be a strict weak
+// ordering, as required by std::sort.
+template <class Compare> constexpr auto nan_last(Compare compare) {
+  return [compare](const auto &a, const auto &b) {
+    using T = std::decay_t<decltype(a)>;
+    if constexpr (std::is_floating_point_v<T> || is_ValueAndVariance_v<T>) {
+      using numeric::isnan;
+      if (isnan(a) || isnan(b))
+        return !isnan(a);
+    }
+    return compare(a, b);
+  };
+}
+
 template <class Compare> constexpr auto make_sort(Compare compare) {
   return overloaded{
       core::element::arg_list<scipp::span<int64_t>, scipp::span<int32_t>,
@@ -43,7 +57,7 @@ template <class Compare> constexpr auto make_sort(Compare compare) {
 }
 } // namespace
 
-auto sort_nonascending = make_sort(greater);
-auto sort_nondescending = make_sort(less);
+auto sort_nonascending = make_sort(nan_last(greater));
+auto sort_nondescending = make_sort(nan_last(less));
 
 } // namespace scipp::core::element
-- 
2.43.0


From c83c8a25d30e3914a5076ad280777ac5f1980580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:31 +0000
Subject: [PATCH 40/48] fix: NaN in a coord independent of the dim does not
 prevent copying slices

---
 lib/dataset/bins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index c8c0347..ee795af 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -39,7 +39,7 @@ constexpr auto copy_or_match = [](const auto &a, auto &&b, const Dim dim,
                                   const Variable &dstIndices) {
   if (a.dims().contains(dim))
     copy_slices(a, b, dim, srcIndices, dstIndices);
-  else
+  else if (!equals_nan(a, b))
     core::expect::equals(a, b);
 };
 
-- 
2.43.0


From 333866d9a7a966ef39c3d2c7ed5889779567d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:08 +0000
Subject: [PATCH 41/48] fix: setting a slice of a dataset with a read-only item
 modifies nothing

---
 lib/variable/variable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index d4f134a..ccae76e 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -228,6 +228,7 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
   expect::includes(slice(s).dims(), data.dims());
+  expect_writable();
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From 505f60ed9d864a0e3635f9e26035232574178c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:08 +0000
Subject: [PATCH 42/48] fix: set slice of a dataset accepts a data array with
 coords

---
 lib/dataset/dataset.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 7537d7b..95dc477 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -248,11 +248,14 @@ Dataset &Dataset::setSlice(const Slice &s, const Dataset &data) {
 Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
   // Validate slice on all items as a dry-run
   expect::coords_are_superset(slice(s).coords(), data.coords(), "");
+  // Coords are checked above, the items themselves do not hold any
+  const DataArray without_coords(data.data(), typename Coords::holder_type{},
+                                 data.masks().items());
   for (const auto &item : m_data)
-    item.second.validateSlice(s, data);
+    item.second.validateSlice(s, without_coords);
   // Only if all items checked for dry-run does modification go-ahead
   for (auto &&[_, val] : m_data)
-    val.setSlice(s, data);
+    val.setSlice(s, without_coords);
   return *this;
 }
 
-- 
2.43.0


From 7c6c69a999ad9eb4a0fd17541c061c0753b6f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:16 +0000
Subject: [PATCH 43/48] fix: events of binned data with a different unit are
 not joined silently

---
 lib/variable/bins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index 0a6a3ac..63e379e 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -43,6 +43,8 @@ Variable bin_sizes(const Variable &var) {
 
 void copy_slices(const Variable &src, Variable dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
+  // The slices are in general only part of `dst`, the unit cannot be changed.
+  core::expect::equals(dst.unit(), src.unit());
   auto src_ = make_bins_no_validate(srcIndices, dim, src);
   auto dst_ = make_bins_no_validate(dstIndices, dim, dst);
   copy(src_, dst_);
-- 
2.43.0


From f96e5f73701ca36026d86207e4ce99e21209a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 44/48] fix: operations with binned data refuse mismatching
 dims of the bin content

---
 lib/core/multi_index.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index b964603..70c94a3 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -16,8 +16,25 @@ template class SCIPP_CORE_EXPORT MultiIndex<4>;
 template class SCIPP_CORE_EXPORT MultiIndex<5>;
 
 namespace {
+/// Check that buffers have the same dims, in the same order, apart from the
+/// (length of the) dim that is sliced by the bins.
+void validate_bin_dims(const BucketParams &bin0, const BucketParams &bin1) {
+  const auto &dims0 = bin0.dims;
+  const auto &dims1 = bin1.dims;
+  bool ok = dims0.ndim() == dims1.ndim();
+  for (scipp::index i = 0; ok && i < dims0.ndim(); ++i)
+    ok = dims0.label(i) == bin0.dim
+             ? dims1.label(i) == bin1.dim
+             : dims0.label(i) == dims1.label(i) && dims0.size(i) == dims1.size(i);
+  if (!ok)
+    throw except::DimensionError(
+        "Mismatching dimensions of bin content in operation with binned data: " +
+        to_string(dims0) + " and " + to_string(dims1) + '.');
+}
+
 void validate_bin_indices_impl(const ElementArrayViewParams &param0,
                                const ElementArrayViewParams &param1) {
+  validate_bin_dims(param0.bucketParams(), param1.bucketParams());
   const auto &iterDims = param0.dims();
   auto index = MultiIndex(iterDims, param0.strides(), param1.strides());
   const auto indices0 = param0.bucketParams().indices;
-- 
2.43.0


From 7bcfc56c48f36586469a08c4db8e944249480d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 45/48] fix: joining bins along a dim refuses multi-dimensional
 bin content

---
 lib/dataset/bin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 62ec3fe..948aa9e 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -524,6 +524,9 @@ public:
     // right now bin<> cannot handle this and requires target bin indices for
     // every bin element.
     const auto &[begin_end, dim, buffer] = var.constituents<T>();
+    if (buffer.dims().ndim() > 1)
+      throw except::BinnedDataError(
+          "Binning is only implemented for 1-dimensional data.");
     m_target_bins_buffer =
         (dims.volume() > std::numeric_limits<int32_t>::max())
             ? makeVariable<int64_t>(buffer.dims(), units::none)
-- 
2.43.0


From 375d4f379063f85939126a3231cebcf1ca344a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 46/48] fix: making bins requires the bin dim also if there are
 no bins

---
 lib/variable/variable_instantiate_bin_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable_instantiate_bin_elements.cpp b/lib/variable/variable_instantiate_bin_elements.cpp
index 17feb30..efd7afb 100644
--- a/lib/variable/variable_instantiate_bin_elements.cpp
+++ b/lib/variable/variable_instantiate_bin_elements.cpp
@@ -38,11 +38,12 @@ private:
 void expect_valid_bin_indices(const Variable &indices, const Dim dim,
                               const Sizes &buffer_sizes) {
   core::expect::equals(units::none, indices.unit());
+  const auto buffer_size = buffer_sizes[dim];
   auto var = copy(indices);
   const auto vals = var.values<scipp::index_pair>().as_span();
   std::sort(vals.begin(), vals.end());
   if ((!vals.empty() && (vals.begin()->first < 0)) ||
-      (!vals.empty() && ((vals.end() - 1)->second > buffer_sizes[dim])))
+      (!vals.empty() && ((vals.end() - 1)->second > buffer_size)))
     throw except::SliceError("Bin indices out of range");
   if (std::adjacent_find(vals.begin(), vals.end(),
                          [](const auto a, const auto b) {
-- 
2.43.0


From 0fd620e23319a4a3a5e8486120e3c66c447d0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 47/48] fix: append to transposed or broadcast binned variable

---
 lib/dataset/bins.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index ee795af..535c37b 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -301,12 +301,14 @@ DataArray concatenate(const DataArray &array, const Dim dim) {
 }
 
 void append(Variable &var0, const Variable &var1) {
-  if (var0.dtype() == dtype<bucket<Variable>>)
-    var0.setDataHandle(combine<Variable>(var0, var1).data_handle());
-  else if (var0.dtype() == dtype<bucket<DataArray>>)
-    var0.setDataHandle(combine<DataArray>(var0, var1).data_handle());
-  else
-    var0.setDataHandle(combine<Dataset>(var0, var1).data_handle());
+  if (var0.is_readonly())
+    throw except::VariableError(
+        "Read-only flag is set, cannot append to bins of variable.");
+  const auto out = concatenate(var0, var1);
+  core::expect::equals(var0.dims(), out.dims());
+  var0.setDataHandle(out.data_handle());
+  // The new bins are contiguous, which is not true for a transposed variable.
+  var0.unchecked_strides() = core::Strides(var0.dims());
 }
 
 void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
-- 
2.43.0


From 6a6407a6fc2beb6e2ad8e56fdf6208f094649754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 48/48] fix: refused assignment to bins of a data array
 modifies nothing

---
 lib/dataset/bins.cpp | 45 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 535c37b..b62b71f 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -43,6 +43,30 @@ constexpr auto copy_or_match = [](const auto &a, auto &&b, const Dim dim,
     core::expect::equals(a, b);
 };
 
+/// Checks if copy_or_match will succeed, to avoid failing half-way.
+constexpr auto expect_can_copy_or_match = [](const Variable &a,
+                                             const Variable &b, const Dim dim) {
+  if (a.dims().contains(dim)) {
+    const auto other_dims = [dim](auto dims) {
+      if (dims.contains(dim))
+        dims.erase(dim);
+      return dims;
+    };
+    if (!b.dims().contains(dim))
+      throw except::DimensionError("Expected dimension " + to_string(dim) +
+                                   " in " + to_string(b.dims()) + '.');
+    core::expect::equals(other_dims(a.dims()), other_dims(b.dims()));
+    core::expect::equals(a.unit(), b.unit());
+    core::expect::equals(a.dtype(), b.dtype());
+    if (a.has_variances() != b.has_variances())
+      throw except::VariancesError(
+          "Cannot copy between data with and without variances.");
+    if (b.is_readonly())
+      throw except::VariableError("Read-only flag is set, cannot copy slices.");
+  } else if (!equals_nan(a, b))
+    core::expect::equals(a, b);
+};
+
 constexpr auto expect_matching_keys = [](const auto &a, const auto &b) {
   bool ok = true;
   constexpr auto key = [](const auto &x_) {
@@ -81,9 +105,14 @@ auto make_fill(const DataArray &function,
 
 void copy_slices(const DataArray &src, DataArray dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
-  copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
   expect_matching_keys(src.meta(), dst.meta());
   expect_matching_keys(src.masks(), dst.masks());
+  expect_can_copy_or_match(src.data(), dst.data(), dim);
+  for (const auto &[name, coord] : src.meta())
+    expect_can_copy_or_match(coord, dst.meta()[name], dim);
+  for (const auto &[name, mask] : src.masks())
+    expect_can_copy_or_match(mask, dst.masks()[name], dim);
+  copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
   for (const auto &[name, coord] : src.meta())
     copy_or_match(coord, dst.meta()[name], dim, srcIndices, dstIndices);
   for (const auto &[name, mask] : src.masks())
@@ -92,14 +121,24 @@ void copy_slices(const DataArray &src, DataArray dst, const Dim dim,
 
 void copy_slices(const Dataset &src, Dataset dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
-  for (const auto &[name, var] : src.coords())
-    copy_or_match(var, dst.coords()[name], dim, srcIndices, dstIndices);
   expect_matching_keys(src.coords(), dst.coords());
   expect_matching_keys(src, dst);
+  for (const auto &[name, var] : src.coords())
+    expect_can_copy_or_match(var, dst.coords()[name], dim);
   for (const auto &item : src) {
     const auto &dst_ = dst[item.name()];
     expect_matching_keys(item.attrs(), dst_.attrs());
     expect_matching_keys(item.masks(), dst_.masks());
+    expect_can_copy_or_match(item.data(), dst_.data(), dim);
+    for (const auto &[name, var] : item.masks())
+      expect_can_copy_or_match(var, dst_.masks()[name], dim);
+    for (const auto &[name, var] : item.attrs())
+      expect_can_copy_or_match(var, dst_.attrs()[name], dim);
+  }
+  for (const auto &[name, var] : src.coords())
+    copy_or_match(var, dst.coords()[name], dim, srcIndices, dstIndices);
+  for (const auto &item : src) {
+    const auto &dst_ = dst[item.name()];
     copy_or_match(item.data(), dst_.data(), dim, srcIndices, dstIndices);
     for (const auto &[name, var] : item.masks())
       copy_or_match(var, dst_.masks()[name], dim, srcIndices, dstIndices);
-- 
2.43.0

