// Partitioned shapes: creation and accessors.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/partitioned_mesh.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=6000 max_iter=100
// VC-BOUND: up to two groups of up to two meshes and two outlines each
#include "pmesh.h"
static const float kX[4] = {0, 4, 4, 0}, kY[4] = {0, 0, 4, 4};
static const uint32_t kIndex[6] = {0, 1, 2, 0, 2, 3};
// kinds: 0 triangle, 1 two triangles, 2 labelled triangle, 3 no triangles, 4 nothing at all
static Mesh mesh(int kind) {
  if (kind == 4) return Mesh();
  return mesh_of(kind == 2 ? with_label() : plain(), kX, kY, kind == 1 ? 4 : 3, kIndex, kind == 1 ? 6 : kind == 3 ? 0 : 3);
}
static uint32_t vertices(int kind) { return kind == 4 ? 0 : kind == 1 ? 4 : 3; }
static uint32_t triangles(int kind) { return kind >= 3 ? 0 : kind == 1 ? 2 : 1; }
VC_PROOF(fp, default_constructed) {
  Shape s;
  vc_assert(s.RenderGroupCount() == 0 && s.Meshes().empty() && s.Bounds().IsEmpty(), "a new shape is empty");
}
VC_PROOF(fp, empty_groups) {
  uint32_t n = vc_choose("groups", 0, 3);
  Shape s = Shape::WithEmptyGroups(n);
  vc_assert(s.RenderGroupCount() == n && s.Meshes().empty() && s.Bounds().IsEmpty(), "empty groups have no meshes");
  for (uint32_t g = 0; g < n; ++g) vc_assert(s.RenderGroupMeshes(g).empty() && s.OutlineCount(g) == 0 && s.RenderGroupFormat(g) == MeshFormat(), "empty groups have no outlines and the default format");
}
// One group: two meshes of any kind.
VC_PROOF(fp, meshes) {
  int n = vc_choose("meshes", 0, 2), a = vc_choose("first", 0, 4), b = vc_choose("second", 0, 4);
  std::vector<Mesh> ms;
  if (n > 0) ms.push_back(mesh(a));
  if (n > 1) ms.push_back(mesh(b));
  auto s = Shape::FromMeshes(absl::MakeConstSpan(ms));
  bool legal = (n < 1 || triangles(a) > 0) && (n < 2 || (triangles(b) > 0 && (a == 2) == (b == 2)));
  bool ok = s.ok();
  vc_assert(ok == legal, "a shape is created exactly from meshes with triangles and of one format");
  if (!ok) return;
  vc_assert(s->RenderGroupCount() == 1 && s->Meshes().size() == static_cast<size_t>(n) && s->RenderGroupMeshes(0).size() == static_cast<size_t>(n) && s->OutlineCount(0) == 0, "the shape has the given meshes");
  vc_assert(s->RenderGroupFormat(0) == (n == 0 ? MeshFormat() : a == 2 ? with_label() : plain()), "the group has the format of its meshes");
  if (n > 0) vc_assert(s->Meshes()[0].TriangleCount() == triangles(a) && s->Meshes()[0].VertexCount() == vertices(a), "the first mesh is the given one");
  if (n > 1) vc_assert(s->Meshes()[1].TriangleCount() == triangles(b) && s->Meshes()[1].VertexCount() == vertices(b), "the second mesh is the given one");
  vc_assert(n == 0 ? s->Bounds().IsEmpty() : bounds(*s->Bounds().AsRect(), 0, 0, 4, 4), "the bounds are those of the meshes");
}
VC_PROOF(fp, too_many_meshes) {
  // the meshes are not looked at when there are too many
  static Mesh one[1] = {Mesh()};
  uint32_t a = vc_u32("first"), b = vc_u32("second");
  vc_assume((uint64_t{a} + b > 65536) & (a < 1u << 28) & (b < 1u << 28));
  Shape::MeshGroup groups[2] = {{.meshes = absl::Span<const Mesh>(one, a), .outlines = {}}, {.meshes = absl::Span<const Mesh>(one, b), .outlines = {}}};
  bool ok = Shape::FromMeshGroups(groups).ok();
  vc_assert(!ok, "more meshes than 16-bit indices can tell apart are rejected");
}
// Two groups with outlines; the outlines refer to arbitrary vertices.
static void outlines(int g0, int g1, int where) {
  // g: 0 no meshes, 1 one mesh, 2 two meshes
  static const int kKinds[2][2] = {{0, 1}, {2, 2}};
  std::vector<Mesh> ms[2];
  for (int k = 0; k < g0; ++k) ms[0].push_back(mesh(kKinds[0][k]));
  for (int k = 0; k < g1; ++k) ms[1].push_back(mesh(kKinds[1][k]));
  Shape::VertexIndexPair p[2][2];
  for (int o = 0; o < 2; ++o) for (int v = 0; v < 2; ++v) p[o][v].mesh_index = 0, p[o][v].vertex_index = vc_u16("vertex");
  if (g0 < 2 && g1 < 2) {
    for (int o = 0; o < 2; ++o) for (int v = 0; v < 2; ++v) p[o][v].mesh_index = vc_u16("mesh");
  } else {
    static const uint16_t kMesh[4] = {0, 1, 2, 65535};
    p[0][0].mesh_index = kMesh[vc_choose("mesh", 0, 3)]; p[0][1].mesh_index = kMesh[vc_choose("mesh2", 0, 3)]; p[1][0].mesh_index = kMesh[vc_choose("mesh3", 0, 2)];
  }
  int n0 = vc_choose("length", 0, 2), n1 = 1;
  std::vector<Outline> os[2];
  os[where].push_back(Outline(p[0], n0));
  os[1].push_back(Outline(p[1], n1));
  Shape::MeshGroup groups[2];
  bool legal = n0 > 0;
  for (int g = 0; g < 2; ++g) groups[g] = {.meshes = absl::MakeConstSpan(ms[g]), .outlines = absl::MakeConstSpan(os[g])};
  for (int o = 0; o < 2; ++o) {
    int g = o == 0 ? where : 1, n = o == 0 ? n0 : n1, size = g == 0 ? g0 : g1;
    for (int v = 0; v < n; ++v) {
      bool there = false;
      for (int m = 0; m < size; ++m) there = there | ((p[o][v].mesh_index == m) & (p[o][v].vertex_index < vertices(kKinds[g][m])));
      legal = legal & there;
    }
  }
  auto s = Shape::FromMeshGroups(groups);
  bool ok = s.ok();
  vc_assert(ok == legal, "outlines must not be empty and refer to vertices of their group");
  if (!ok) return;
  vc_assert(s->RenderGroupCount() == 2 && s->Meshes().size() == static_cast<size_t>(g0 + g1), "the shape has the given groups");
  vc_assert(s->RenderGroupMeshes(0).size() == static_cast<size_t>(g0) && s->RenderGroupMeshes(1).size() == static_cast<size_t>(g1), "every group has its meshes");
  for (int k = 0; k < g1; ++k) vc_assert(s->RenderGroupMeshes(1)[k].VertexCount() == vertices(kKinds[1][k]) && s->RenderGroupMeshes(1)[k].Format() == with_label(), "every group has its own meshes in order");
  vc_assert(s->OutlineCount(0) == (where == 0) && s->OutlineCount(1) == (where == 0 ? 1u : 2u), "every group has its outlines");
  for (int o = 0; o < 2; ++o) {
    int g = o == 0 ? where : 1, n = o == 0 ? n0 : n1, at = o == 1 && where == 1 ? 1 : 0;
    vc_assert(s->OutlineVertexCount(g, at) == static_cast<uint32_t>(n), "outlines have their vertices");
    for (int v = 0; v < n; ++v) {
      Shape::VertexIndexPair got = s->Outline(g, at)[v];
      vc_assert((got.mesh_index == p[o][v].mesh_index) & (got.vertex_index == p[o][v].vertex_index), "outlines are the given ones");
    }
  }
}
VC_PROOF(fp, outlines_1_1) { outlines(1, 1, 0); }
VC_PROOF(fp, outlines_2_1) { outlines(2, 1, 0); }
VC_PROOF(fp, outlines_0_2) { outlines(0, 2, 1); }
VC_PROOF(fp, outline_positions) {
  std::vector<Mesh> ms;
  ms.push_back(mesh(0)); ms.push_back(mesh(1));
  Shape::VertexIndexPair p[2];
  p[0] = {static_cast<uint16_t>(vc_choose("mesh", 0, 1)), static_cast<uint16_t>(vc_choose("vertex", 0, 2))};
  p[1] = {1, 3};
  Outline o(p, 2);
  auto s = Shape::FromMeshes(absl::MakeConstSpan(ms), absl::MakeConstSpan(&o, 1));
  vc_assert(s.ok(), "the shape is legal");
  vc_assert(s->OutlinePosition(0, 0, 0) == (Point{kX[p[0].vertex_index], kY[p[0].vertex_index]}) && s->OutlinePosition(0, 0, 1) == (Point{0, 4}), "outline positions are those of the vertices");
}
