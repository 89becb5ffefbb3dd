From dc55ba688a867554a8e26cf3c13e75a937036e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 01/12] fix: Duration32 zero times infinity and zero divided by
 zero are infinite, not NaN

---
 ink/types/duration.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..da87f39 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -28,7 +28,7 @@ Duration32 operator*(Duration32 d, float scale) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  if (!d.IsFinite() || std::isinf(scale)) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
@@ -40,7 +40,7 @@ Duration32 operator/(Duration32 d, float divisor) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  if (!d.IsFinite() || (d == Duration32::Zero() && divisor == 0)) {
     return (d >= Duration32::Zero()) == (divisor >= 0)
                ? Duration32::Infinite()
                : -Duration32::Infinite();
-- 
2.43.0


From d4a8b8f452fbaa5782f6a993a4d93552c1971e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 02/12] fix: Vec::AsUnitVec no longer CHECK-fails on the
 smallest subnormal vectors

---
 ink/geometry/vec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..b3f00f6 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,11 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // e.g. x and y are both very large finite floats, and lose precision (or, once
+  // scaled, underflow to zero) if x and y are both very small.  We can avoid
+  // this by pre-scaling the vector by a power of two before normalizing.
+  Vec scaled =
+      (std::max(std::abs(x), std::abs(y)) < 1 ? 0x1p64f : 0.5f) * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 35717d38e00b087c1d36573d155226eae7a24d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 03/12] fix: Quad::Join must use the floating-point absolute
 value

---
 ink/geometry/quad.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..fc6afd8 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -84,7 +84,8 @@ void Quad::Join(Point point) {
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
   float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+      std::max(width_, .5f * width_ +
+                           std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From 4264e6924b5d74c6e2bc9c0ffa3cd0996b60a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 04/12] fix: Color::ScaledToGamut must not return NaN for
 infinite channels

---
 ink/color/color.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..3fb1b50 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -168,7 +168,10 @@ Color Color::ScaledToGamut() const {
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
   if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
-      copy.rgba_[i] = copy.rgba_[i] / max_val;
+      // Infinite channel values are permitted, and infinity divided by infinity
+      // is NaN. A channel equal to the maximum always scales to exactly one.
+      copy.rgba_[i] =
+          copy.rgba_[i] == max_val ? 1.0f : copy.rgba_[i] / max_val;
     }
   }
 
-- 
2.43.0


From d231cf763575f246501646d4239df17c13fe1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 05/12] fix: keep target modifiers finite when their range
 overflows

A target node interpolates its modifier range with an unbounded input, so the
result can overflow to infinity although every part is finite; the tip state was
then computed from infinite modifiers. Treat it as null, like the other nodes.
---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..6225113 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -465,8 +465,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the modifier is non-finite (e.g. overflow to infinity), treat the result
+  // as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From 0379bde802623b53f970a1904b2a3665d4a2b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 06/12] fix: keep combined tip modifiers finite

Each modifier is finite, but their product or sum can overflow to infinity, and
combining that further (infinity times zero, infinity minus infinity) gave NaN
multipliers and offsets, which clamping lets through: the tip state then had NaN
sizes, angles or colour shifts.
---
 .../internal/brush_tip_modeler_helpers.cc     | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 6225113..f0208b0 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -18,6 +18,7 @@
 #include <array>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <variant>
 #include <vector>
@@ -499,6 +500,16 @@ struct BrushTipStateModifiers {
   float opacity_multiplier = 1;
 };
 
+// Returns `value`, or the closest finite value if it overflowed to infinity.
+float ClampToFinite(float value) {
+  return std::clamp(value, std::numeric_limits<float>::lowest(),
+                    std::numeric_limits<float>::max());
+}
+
+Angle ClampToFinite(Angle angle) {
+  return Angle::Radians(ClampToFinite(angle.ValueInRadians()));
+}
+
 // Adds `modifier` to the appropriate member of `tip_state_modifiers` according
 // to the `target` enum.
 void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
@@ -564,6 +575,21 @@ void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
       tip_state_modifiers.opacity_multiplier *= modifier;
       break;
   }
+
+  // A product or sum of finite modifiers can overflow to infinity. Keep the
+  // combined values finite, so that combining them further (e.g. multiplying by
+  // zero) cannot result in NaN.
+  BrushTipStateModifiers& m = tip_state_modifiers;
+  m.width_multiplier = ClampToFinite(m.width_multiplier);
+  m.height_multiplier = ClampToFinite(m.height_multiplier);
+  m.slant_offset = ClampToFinite(m.slant_offset);
+  m.corner_rounding_offset = ClampToFinite(m.corner_rounding_offset);
+  m.rotation_offset = ClampToFinite(m.rotation_offset);
+  m.pinch_offset = ClampToFinite(m.pinch_offset);
+  m.hue_offset = ClampToFinite(m.hue_offset);
+  m.saturation_multiplier = ClampToFinite(m.saturation_multiplier);
+  m.luminosity = ClampToFinite(m.luminosity);
+  m.opacity_multiplier = ClampToFinite(m.opacity_multiplier);
 }
 
 void ApplyModifiersToTipState(const BrushTipStateModifiers& modifiers,
@@ -585,7 +611,8 @@ void ApplyModifiersToTipState(const BrushTipStateModifiers& modifiers,
   }
   if (modifiers.rotation_offset != Angle()) {
     tip_state.rotation =
-        (tip_state.rotation + modifiers.rotation_offset).Normalized();
+        ClampToFinite(tip_state.rotation + modifiers.rotation_offset)
+            .Normalized();
   }
   if (modifiers.corner_rounding_offset != 0) {
     tip_state.percent_radius = std::clamp(
-- 
2.43.0


From faad6d703cab3d116e3eb381a249fb4f8b383f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 07/12] fix: keep coding scales of tiny attribute ranges
 positive

---
 ink/geometry/internal/mesh_packing.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..eeda9b7 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -14,11 +14,13 @@
 
 #include "ink/geometry/internal/mesh_packing.h"
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -875,8 +877,13 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
 
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
-    // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    // so in that case we set the scale to 1 instead. A tiny range could likewise
+    // give a scale that underflows to zero (or to an imprecise subnormal), so we
+    // keep the scale at or above the smallest normal float.
+    coding_params.components[i].scale =
+        range > 0 ? std::max(range / max_values[i],
+                             std::numeric_limits<float>::min())
+                  : 1;
   }
 
   return coding_params;
-- 
2.43.0


From 6c1c40d63a2ac03e53223a739d3923ab0db1163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 08/12] fix: allow querying an empty StaticRTree

VisitIntersectedElements read the bounds of the root node without checking
that there is one, which is undefined behaviour for an R-Tree without
elements.
---
 ink/geometry/internal/static_rtree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..899fb4f 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,8 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  // An empty R-Tree has no branch nodes, not even a root.
+  if (branch_nodes_.empty()) return;
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From 7962d9e628068812b0454873af04a014dae018a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 09/12] fix: allow querying a PartitionedMesh with groups but
 no meshes

A PartitionedMesh whose groups are all empty has Data but no meshes; visiting
its triangles, computing its coverage and initializing its spatial index
CHECK-failed instead of treating it as empty.
---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 1fa8852d67c792d08e8349d2d8c81803135f4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 10/12] fix: collapse shapes along the diagonal of their bounds
 to a segment

CalculateCollapsedSegment returned a single point for non-invertible
transforms that map the first diagonal of the bounds, but not the shape, to
a point.
---
 ink/geometry/internal/algorithms.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..600bcd3 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -243,6 +243,15 @@ Segment CalculateCollapsedSegment(
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  // The transform may collapse (or nearly collapse) that diagonal to a point
+  // without doing so to the rest of the bounds, in which case the other one
+  // determines the line.
+  Segment other_transformed_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (other_transformed_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_transformed_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From 35ff2c9389a9d0ae61fba35c2935fcafc8d6541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 11/12] fix: a triangle contains no point outside its bounding
 box

---
 ink/geometry/triangle.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..a5091c7 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -27,6 +27,18 @@
 namespace ink {
 
 bool Triangle::Contains(Point point) const {
+  // A point outside of the triangle's bounding box can't be contained. If the
+  // triangle is (nearly) collapsed to a line, then the determinants below may
+  // consist of nothing but rounding error for any point near that line, so they
+  // can't be relied upon to reject points that lie beyond the triangle's
+  // corners.
+  auto [x_min, x_max] = std::minmax({p0.x, p1.x, p2.x});
+  auto [y_min, y_max] = std::minmax({p0.y, p1.y, p2.y});
+  if (point.x < x_min || point.x > x_max || point.y < y_min ||
+      point.y > y_max) {
+    return false;
+  }
+
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
   if (d0 * d1 < 0) return false;
-- 
2.43.0


From 83fefa12c2e33d653570449e1ce7ad7541b1637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 12/12] fix: segments with disjoint bounding boxes do not
 intersect

---
 ink/geometry/internal/intersects_internal.cc | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..3aaa729 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -14,6 +14,7 @@
 
 #include "ink/geometry/internal/intersects_internal.h"
 
+#include <algorithm>
 #include <optional>
 #include <utility>
 
@@ -26,11 +27,30 @@
 
 namespace ink {
 namespace geometry_internal {
+namespace {
+
+// Returns true if the bounding boxes of the given `Segment`s are disjoint.
+//
+// Besides providing an early exit, this is needed for correctness: if the
+// `Segment`s are nearly collinear, then the determinants used to test for an
+// intersection may consist of nothing but rounding error, so they can't be
+// relied upon to reject `Segment`s that are far apart along their common line.
+bool BoundsAreDisjoint(const Segment& a, const Segment& b) {
+  auto [a_x_min, a_x_max] = std::minmax(a.start.x, a.end.x);
+  auto [a_y_min, a_y_max] = std::minmax(a.start.y, a.end.y);
+  auto [b_x_min, b_x_max] = std::minmax(b.start.x, b.end.x);
+  auto [b_y_min, b_y_max] = std::minmax(b.start.y, b.end.y);
+  return a_x_min > b_x_max || b_x_min > a_x_max || a_y_min > b_y_max ||
+         b_y_min > a_y_max;
+}
+
+}  // namespace
 
 bool IntersectsInternal(Point a, Point b) { return a == b; }
 bool IntersectsInternal(Point a, const Segment& b) {
   // NOMUTANTS -- Directly compare the Points when the Segment is Point-like.
   if (b.start == b.end) return a == b.start;
+  if (BoundsAreDisjoint(Segment{a, a}, b)) return false;
   // If the point isn't on the line of the segment, they don't intersect.
   if (Vec::Determinant((a - b.start), (b.end - b.start)) != 0) return false;
   std::optional<float> projection = b.Project(a);
@@ -56,6 +76,7 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   if (a.start == a.end) return IntersectsInternal(a.start, b);
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
   if (b.start == b.end) return IntersectsInternal(b.start, a);
+  if (BoundsAreDisjoint(a, b)) return false;
 
   Vec vec_a = a.Vector();
   Vec vec_b = b.Vector();
-- 
2.43.0

