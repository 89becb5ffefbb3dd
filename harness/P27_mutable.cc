// Partitioned shapes made from mutable meshes.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/partitioned_mesh.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=6000 max_iter=200
// VC-BOUND: meshes of five vertices and three triangles, outlines of up to two vertices
#include "pmesh.h"
#include "ink/geometry/mutable_mesh.h"
static const float kX[5] = {0, 4, 4, 0, 2}, kY[5] = {0, 0, 4, 4, 8};
// vertices 0 to 3 are part of triangles, 4 is not
static MutableMesh mesh(bool labelled, int triangles) {
  MutableMesh m(labelled ? with_label() : plain());
  for (int i = 0; i < 5; ++i) m.AppendVertex({kX[i], kY[i]});
  static const uint32_t kTri[3][3] = {{2, 3, 0}, {0, 1, 2}, {1, 2, 3}};
  for (int t = 0; t < triangles; ++t) m.AppendTriangleIndices({kTri[t][0], kTri[t][1], kTri[t][2]});
  return m;
}
static const uint32_t kPick[6] = {0, 2, 3, 4, 5, 4294967295u};
VC_PROOF(fp, outlines) {
  MutableMesh m = mesh(false, 3);
  int n = vc_choose("length", 0, 2);
  uint32_t o[2][2] = {{kPick[vc_choose("first", 0, 5)], kPick[vc_choose("second", 0, 5)]}, {1, 3}};
  absl::Span<const uint32_t> outlines[2] = {absl::Span<const uint32_t>(o[0], n), absl::Span<const uint32_t>(o[1], 2)};
  auto s = Shape::FromMutableMesh(m, outlines);
  bool legal = true, referenced = true;
  for (int i = 0; i < n; ++i) legal = legal && o[0][i] < 5, referenced = referenced && o[0][i] < 4;
  bool ok = s.ok();
  if (!legal) { vc_assert(!ok, "outlines must refer to vertices of the mesh"); return; }
  if (!referenced) return;  // vertices outside all triangles have no place in the shape
  vc_assert(ok, "legal outlines are accepted");
  vc_assert(s->RenderGroupCount() == 1 && s->RenderGroupMeshes(0).size() == 1, "the shape has the mesh");
  const Mesh& got = s->Meshes()[0];
  vc_assert(got.TriangleCount() == 3, "the mesh has its triangles");
  for (int t = 0; t < 3; ++t) {
    Triangle a = got.GetTriangle(t), b = m.GetTriangle(t);
    vc_assert((a.p0 == b.p0) & (a.p1 == b.p1) & (a.p2 == b.p2), "triangles keep their corners");
  }
  int first = n == 0 ? 0 : 1;
  vc_assert(s->OutlineCount(0) == static_cast<uint32_t>(first + 1), "empty outlines are left out");
  if (first == 1) {
    vc_assert(s->OutlineVertexCount(0, 0) == static_cast<uint32_t>(n), "outlines keep their vertices");
    for (int i = 0; i < n; ++i) vc_assert(s->OutlinePosition(0, 0, i) == (Point{kX[o[0][i]], kY[o[0][i]]}), "outline positions are those of the mesh");
  }
  for (int i = 0; i < 2; ++i) vc_assert(s->OutlinePosition(0, first, i) == (Point{kX[o[1][i]], kY[o[1][i]]}), "outline positions are those of the mesh");
}
VC_PROOF(fp, groups) {
  int n = vc_choose("groups", 0, 2), t0 = vc_choose("triangles", 0, 3);
  bool omit = vc_choose("omit", 0, 1);
  MutableMesh a = mesh(false, t0), b = mesh(true, 2);
  uint32_t o[2] = {1, 3};
  absl::Span<const uint32_t> outlines[1] = {absl::Span<const uint32_t>(o, 2)};
  const Id label[1] = {Id::kCustom1};
  Shape::MutableMeshGroup groups[2] = {{.mesh = &a, .outlines = {}, .omit_attributes = {}, .packing_params = {}}, {.mesh = &b, .outlines = outlines, .omit_attributes = omit ? absl::Span<const Id>(label) : absl::Span<const Id>(), .packing_params = {}}};
  auto s = Shape::FromMutableMeshGroups(absl::Span<const Shape::MutableMeshGroup>(groups, n));
  vc_assert(s.ok(), "legal groups are accepted");
  vc_assert(s->RenderGroupCount() == static_cast<uint32_t>(n), "every group becomes a render group");
  if (n > 0) {
    vc_assert(s->RenderGroupMeshes(0).size() == (t0 == 0 ? 0u : 1u) && s->OutlineCount(0) == 0, "a group without triangles has no meshes");
    if (t0 > 0) vc_assert(s->RenderGroupMeshes(0)[0].TriangleCount() == static_cast<uint32_t>(t0) && s->RenderGroupFormat(0) == plain(), "every group has its mesh");
  }
  if (n > 1) {
    vc_assert(s->RenderGroupMeshes(1).size() == 1 && s->RenderGroupMeshes(1)[0].TriangleCount() == 2, "every group has its mesh");
    vc_assert(s->RenderGroupFormat(1) == (omit ? plain() : with_label()), "omitted attributes are left out");
    vc_assert(s->OutlineCount(1) == 1 && s->OutlineVertexCount(1, 0) == 2 && s->OutlinePosition(1, 0, 0) == (Point{4, 0}) && s->OutlinePosition(1, 0, 1) == (Point{0, 4}), "every group has its outlines");
  }
}
