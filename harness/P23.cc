// Immutable meshes: created exactly from consistent data, and holding that data.
// VC-SOURCES: ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/internal/mesh_packing.cc ink/geometry/triangle.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/vec.cc ink/geometry/angle.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=4000 max_iter=64
// VC-BOUND: meshes of up to 3 vertices and 2 triangles with arbitrary values
#include "vc.h"
#include <array>
#include <cstdint>
#include <vector>
#include "absl/types/span.h"
#include "ink/geometry/mesh.h"
using namespace ink;
using F = MeshFormat;
using Ty = F::AttributeType;
using Id = F::AttributeId;
using Floats = absl::Span<const float>;
// position, then a second attribute
static F unpacked() { return *F::Create({{Ty::kFloat1Unpacked, Id::kCustom2}, {Ty::kFloat2Unpacked, Id::kPosition}}, F::IndexFormat::k32BitUnpacked16BitPacked); }
static F packed() { return *F::Create({{Ty::kFloat1PackedIn1UnsignedByte, Id::kOpacityShift}, {Ty::kFloat2PackedIn1Float, Id::kPosition}}, F::IndexFormat::k16BitUnpacked16BitPacked); }
static float g_v[3][3];
static void spans(Floats* s, int n) { for (int a = 0; a < 3; ++a) s[a] = Floats(g_v[a], n); }
static void any_values(int n, bool finite) { for (int a = 0; a < 3; ++a) for (int i = 0; i < n; ++i) g_v[a][i] = finite ? vc_finite_float("value") : vc_float("value"); }
// Sizes: three spans of equal length, whole triangles.
VC_PROOF(fp, sizes) {
  int k = vc_choose("spans", 2, 4), n = vc_choose("vertices", 0, 3), odd = vc_choose("odd_span", -1, 2), m = vc_choose("indices", 0, 6), kind = vc_choose("format", 0, 1);
  for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) g_v[a][i] = static_cast<float>(a + i);
  Floats s[4];
  for (int a = 0; a < 4; ++a) s[a] = Floats(g_v[a % 3], a == odd ? (n == 0 ? 1 : n - 1) : n);
  const uint32_t idx[6] = {0, 0, 0, 0, 0, 0};
  auto r = Mesh::Create(kind ? packed() : unpacked(), absl::Span<const Floats>(s, k), absl::Span<const uint32_t>(idx, m));
  bool equal = odd < 0 || odd >= k;
  // the first span gives the number of vertices
  int count = odd == 0 ? (n == 0 ? 1 : n - 1) : n;
  bool legal = k == 3 && equal && m % 3 == 0 && (m == 0 || count > 0);
  bool ok = r.ok();
  vc_assert(ok == legal, "a mesh is created exactly for spans of one length per component and whole triangles");
  if (!ok) return;
  vc_assert(r->VertexCount() == static_cast<uint32_t>(n) && r->TriangleCount() == static_cast<uint32_t>(m / 3), "the mesh has as many vertices and triangles as the data");
  vc_assert(r->AttributeBounds(0).has_value() == (n > 0) && r->Bounds().IsEmpty() == (n == 0), "a mesh has bounds exactly when it has vertices");
}
VC_PROOF(fp, too_many_vertices) {
  // the values are not looked at when there are too many
  static float one[1] = {0};
  uint32_t n = vc_u32("vertices");
  vc_assume((n > 65536) & (n < 1u << 30));
  Floats s[3] = {Floats(one, n), Floats(one, n), Floats(one, n)};
  vc_assert(!Mesh::Create(unpacked(), s, {}).ok(), "a mesh has at most as many vertices as 16-bit indices can address");
}
#define VALUES(N) VC_PROOF(fp, values_##N) { \
  any_values(N, false); \
  Floats s[3]; \
  spans(s, N); \
  bool finite = true; \
  for (int a = 0; a < 3; ++a) for (int i = 0; i < N; ++i) finite = finite & vc_finite(g_v[a][i]); \
  bool ok = Mesh::Create(unpacked(), s, {}).ok(); \
  vc_assert(ok == finite, "a mesh is created exactly for finite values"); \
}
VALUES(1) VALUES(2)
VC_PROOF(fp, indices) {
  int n = vc_choose("vertices", 0, 3), t = vc_choose("triangles", 1, 2);
  for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) g_v[a][i] = static_cast<float>(a + i);
  Floats s[3];
  spans(s, n);
  uint32_t idx[6];
  bool legal = true;
  for (int i = 0; i < 3 * t; ++i) idx[i] = vc_u32("index"), legal = legal & (idx[i] < static_cast<uint32_t>(n));
  auto r = Mesh::Create(unpacked(), s, absl::Span<const uint32_t>(idx, 3 * t));
  bool ok = r.ok();
  vc_assert(ok == legal, "a mesh is created exactly when all indices refer to its vertices");
  if (!ok) return;
  bool same = r->TriangleCount() == static_cast<uint32_t>(t);
  for (int i = 0; i < t; ++i) {
    auto x = r->TriangleIndices(i);
    same = same & (x[0] == idx[3 * i]) & (x[1] == idx[3 * i + 1]) & (x[2] == idx[3 * i + 2]);
  }
  vc_assert(same, "triangles keep their indices, in order");
}
static float least(const float* v, int n) { float x = v[0]; for (int i = 1; i < n; ++i) x = v[i] < x ? v[i] : x; return x; }
static float greatest(const float* v, int n) { float x = v[0]; for (int i = 1; i < n; ++i) x = v[i] > x ? v[i] : x; return x; }
static void contents(int n) {
  any_values(n, true);
  Floats s[3];
  spans(s, n);
  const uint32_t idx[3] = {0, 0, static_cast<uint32_t>(n - 1)};
  auto r = Mesh::Create(unpacked(), s, idx);
  bool ok = r.ok();
  vc_assert(ok, "finite data make a mesh");
  if (!ok) return;
  vc_assert(r->VertexCount() == static_cast<uint32_t>(n) && r->Format() == unpacked(), "the mesh has the given format and vertices");
  bool same = true;
  for (int i = 0; i < n; ++i) {
    auto a = r->FloatVertexAttribute(i, 0), b = r->FloatVertexAttribute(i, 1);
    Point p = r->VertexPosition(i);
    same = same && a.Size() == 1 && b.Size() == 2;
    same = same & vc_same(a[0], g_v[0][i]) & vc_same(b[0], g_v[1][i]) & vc_same(b[1], g_v[2][i]) & vc_same(p.x, g_v[1][i]) & vc_same(p.y, g_v[2][i]);
  }
  vc_assert(same, "unpacked attributes are kept exactly");
  Triangle t = r->GetTriangle(0);
  vc_assert(vc_same(t.p0.x, g_v[1][0]) & vc_same(t.p1.y, g_v[2][0]) & vc_same(t.p2.x, g_v[1][n - 1]) & vc_same(t.p2.y, g_v[2][n - 1]), "triangles have the positions of their vertices");
  auto b0 = r->AttributeBounds(0), b1 = r->AttributeBounds(1);
  vc_assert((b0->minimum[0] == least(g_v[0], n)) & (b0->maximum[0] == greatest(g_v[0], n)), "attribute bounds are the least and greatest values");
  vc_assert((b1->minimum[0] == least(g_v[1], n)) & (b1->maximum[0] == greatest(g_v[1], n)) & (b1->minimum[1] == least(g_v[2], n)) & (b1->maximum[1] == greatest(g_v[2], n)), "position bounds are the least and greatest values");
  Rect e = *r->Bounds().AsRect();
  vc_assert((e.XMin() == least(g_v[1], n)) & (e.XMax() == greatest(g_v[1], n)) & (e.YMin() == least(g_v[2], n)) & (e.YMax() == greatest(g_v[2], n)), "the bounds of a mesh are those of its positions");
}
VC_PROOF(fp, contents_1) { contents(1); }
VC_PROOF(fp, contents_2) { contents(2); }
VC_PROOF(fp, default_mesh) {
  Mesh m;
  vc_assert(m.VertexCount() == 0 && m.TriangleCount() == 0 && m.Format() == F() && m.Bounds().IsEmpty() && !m.AttributeBounds(0).has_value(), "a new mesh is empty, in the default format");
}
VC_PROOF(fp, copies) {
  any_values(1, true);
  Floats s[3];
  spans(s, 1);
  auto r = Mesh::Create(unpacked(), s, {});
  vc_assume(r.ok());
  Mesh c = *r;
  vc_assert(c.VertexCount() == 1 && c.Format() == unpacked(), "a copy has the same data");
  vc_assert(vc_same(c.VertexPosition(0).x, g_v[1][0]) & vc_same(c.VertexPosition(0).y, g_v[2][0]), "a copy has the same data");
}
