// Mutable meshes: every operation from an arbitrary mesh of the explored size.
// VC-SOURCES: ink/geometry/mutable_mesh.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/internal/mesh_packing.cc ink/geometry/triangle.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/vec.cc ink/geometry/angle.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=4000 max_iter=64
// VC-BOUND: meshes of up to 3 vertices and 3 triangles, in two formats, with arbitrary contents
#include "vc.h"
#include <array>
#include <cstdint>
#include <utility>
#include "ink/geometry/mutable_mesh.h"
using namespace ink;
using F = MeshFormat;
using Ty = F::AttributeType;
using Id = F::AttributeId;
constexpr int kMax = 4;
// What the mesh should hold.
struct Shadow {
  int kind, n, t;
  float v[kMax][7];
  uint32_t tri[kMax][3];
};
static F format(int kind) {
  if (kind == 0) return *F::Create({{Ty::kFloat1PackedIn1UnsignedByte, Id::kOpacityShift}, {Ty::kFloat2PackedIn4UnsignedBytes_X12_Y20, Id::kPosition}, {Ty::kFloat4PackedIn1Float, Id::kCustom0}}, F::IndexFormat::k16BitUnpacked16BitPacked);
  return *F::Create({{Ty::kFloat2Unpacked, Id::kPosition}, {Ty::kFloat3Unpacked, Id::kColorShiftHsl}}, F::IndexFormat::k32BitUnpacked16BitPacked);
}
static int attributes(int kind) { return kind == 0 ? 3 : 2; }
static int width(int kind, int a) { return kind == 0 ? (a == 0 ? 1 : a == 1 ? 2 : 4) : (a == 0 ? 2 : 3); }
static int offset(int kind, int a) { return kind == 0 ? (a == 0 ? 0 : a == 1 ? 1 : 3) : (a == 0 ? 0 : 2); }
static int position(int kind) { return kind == 0 ? 1 : 0; }
static uint32_t any_index(int kind) { return kind == 0 ? vc_u16("narrow") : vc_u32("index"); }
static std::array<uint32_t, 3> any_indices(int kind) {
  uint32_t a = any_index(kind), b = any_index(kind), c = any_index(kind);
  return {a, b, c};
}
static SmallArray<float, 4> any_value(int n) {
  SmallArray<float, 4> v(n);
  for (int i = 0; i < n; ++i) v[i] = vc_float("value");
  return v;
}
static void set_vertex(MutableMesh& m, Shadow& s, int i, int a) {
  auto v = any_value(width(s.kind, a));
  m.SetFloatVertexAttribute(i, a, v);
  for (int c = 0; c < width(s.kind, a); ++c) s.v[i][offset(s.kind, a) + c] = v[c];
}
static void set_triangle(MutableMesh& m, Shadow& s, int i) {
  auto t = any_indices(s.kind);
  m.SetTriangleIndices(i, t);
  for (int k = 0; k < 3; ++k) s.tri[i][k] = t[k];
}
// Any mesh with n vertices and t triangles.
static MutableMesh any_mesh(Shadow& s, int kind, int n, int t) {
  MutableMesh m(format(kind));
  s.kind = kind, s.n = n, s.t = t;
  m.Resize(n, t);
  for (int i = 0; i < n; ++i) for (int a = 0; a < attributes(kind); ++a) set_vertex(m, s, i, a);
  for (int i = 0; i < t; ++i) set_triangle(m, s, i);
  return m;
}
static void zero_vertex(Shadow& s, int i) { for (int k = 0; k < 7; ++k) s.v[i][k] = 0; }
static void check(const MutableMesh& m, const Shadow& s) {
  bool counts = m.VertexCount() == static_cast<uint32_t>(s.n) && m.TriangleCount() == static_cast<uint32_t>(s.t);
  vc_assert(counts, "the mesh has the expected numbers of vertices and triangles");
  if (!counts) return;
  vc_assert(m.RawVertexData().size() == s.n * m.VertexStride() && m.RawIndexData().size() == 3 * s.t * m.IndexStride(), "the raw data hold exactly the vertices and triangles");
  bool v = true, p = true, t = true;
  for (int i = 0; i < s.n; ++i) {
    for (int a = 0; a < attributes(s.kind); ++a) {
      auto x = m.FloatVertexAttribute(i, a);
      v = v && x.Size() == width(s.kind, a);
      for (int c = 0; c < width(s.kind, a); ++c) v = v & vc_same(x[c], s.v[i][offset(s.kind, a) + c]);
    }
    int o = offset(s.kind, position(s.kind));
    Point q = m.VertexPosition(i);
    p = p & vc_same(q.x, s.v[i][o]) & vc_same(q.y, s.v[i][o + 1]);
  }
  for (int i = 0; i < s.t; ++i) {
    auto x = m.TriangleIndices(i);
    for (int k = 0; k < 3; ++k) t = t & (x[k] == s.tri[i][k]);
  }
  vc_assert(v, "every attribute reads back as last written");
  vc_assert(p, "positions are the values of the position attribute");
  vc_assert(t, "every triangle reads back as last written");
}
VC_PROOF(fp, contents) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 3), t = vc_choose("triangles", 0, 3);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  check(m, s);
}
VC_PROOF(fp, set_attribute) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 1, 3), i = vc_choose("vertex", 0, 2), a = vc_choose("attribute", 0, 2);
  if (i >= n || a >= attributes(kind)) return;
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, 1);
  set_vertex(m, s, i, a);
  check(m, s);
}
VC_PROOF(fp, set_position) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 1, 3), i = vc_choose("vertex", 0, 2);
  if (i >= n) return;
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, 1);
  Point p{vc_float("x"), vc_float("y")};
  m.SetVertexPosition(i, p);
  int o = offset(kind, position(kind));
  s.v[i][o] = p.x, s.v[i][o + 1] = p.y;
  check(m, s);
}
VC_PROOF(fp, append_vertex) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 3), t = vc_choose("triangles", 0, 1);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  Point p{vc_float("x"), vc_float("y")};
  m.AppendVertex(p);
  zero_vertex(s, s.n);
  int o = offset(kind, position(kind));
  s.v[s.n][o] = p.x, s.v[s.n][o + 1] = p.y;
  ++s.n;
  check(m, s);
}
VC_PROOF(fp, append_triangle) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 1), t = vc_choose("triangles", 0, 3);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  auto x = any_indices(kind);
  m.AppendTriangleIndices(x);
  for (int k = 0; k < 3; ++k) s.tri[t][k] = x[k];
  ++s.t;
  check(m, s);
}
VC_PROOF(fp, set_triangle) {
  int kind = vc_choose("format", 0, 1), t = vc_choose("triangles", 1, 3), i = vc_choose("triangle", 0, 2);
  if (i >= t) return;
  Shadow s;
  MutableMesh m = any_mesh(s, kind, 1, t);
  set_triangle(m, s, i);
  check(m, s);
}
VC_PROOF(fp, insert_triangle) {
  int kind = vc_choose("format", 0, 1), t = vc_choose("triangles", 0, 3), i = vc_choose("at", 0, 3);
  if (i > t) return;
  Shadow s;
  MutableMesh m = any_mesh(s, kind, 1, t);
  auto x = any_indices(kind);
  m.InsertTriangleIndices(i, x);
  for (int j = t; j > i; --j) for (int k = 0; k < 3; ++k) s.tri[j][k] = s.tri[j - 1][k];
  for (int k = 0; k < 3; ++k) s.tri[i][k] = x[k];
  ++s.t;
  check(m, s);
}
VC_PROOF(fp, resize) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 3), t = vc_choose("triangles", 0, 2), n2 = vc_choose("new_vertices", 0, 3), t2 = vc_choose("new_triangles", 0, 2);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  m.Resize(n2, t2);
  for (int i = n; i < n2; ++i) zero_vertex(s, i);
  for (int i = t; i < t2; ++i) for (int k = 0; k < 3; ++k) s.tri[i][k] = 0;
  s.n = n2, s.t = t2;
  check(m, s);
}
VC_PROOF(fp, clear) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 2), t = vc_choose("triangles", 0, 2);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  m.Clear();
  s.n = s.t = 0;
  check(m, s);
  vc_assert(m.Format() == format(kind), "clearing keeps the format");
}
VC_PROOF(fp, reset) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 2), t = vc_choose("triangles", 0, 2), other = vc_choose("new_format", 0, 1);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  m.Reset(format(other));
  s.n = s.t = 0, s.kind = other;
  check(m, s);
  vc_assert(m.Format() == format(other), "resetting takes the given format");
  m.AppendVertex({1, 2});
  vc_assert(m.VertexCount() == 1 && m.VertexPosition(0) == (Point{1, 2}), "a mesh can be built after resetting");
}
VC_PROOF(fp, clone) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 1, 2), t = vc_choose("triangles", 1, 2);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  MutableMesh c = m.Clone();
  vc_assert(c.Format() == m.Format(), "a clone has the same format");
  check(c, s);
  Shadow old = s;
  set_vertex(m, s, n - 1, 1);
  set_triangle(m, s, 0);
  check(c, old);
  check(m, s);
}
VC_PROOF(fp, moved) {
  int kind = vc_choose("format", 0, 1);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, 2, 1), c = std::move(m);
  check(c, s);
}
VC_PROOF(fp, empty) {
  MutableMesh m;
  vc_assert(m.VertexCount() == 0 && m.TriangleCount() == 0 && m.Format() == F(), "a new mesh is empty, in the default format");
}
VC_PROOF(fp, validate) {
  int kind = vc_choose("format", 0, 1), n = vc_choose("vertices", 0, 3), t = vc_choose("triangles", 0, 2);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, n, t);
  bool legal = true;
  for (int i = 0; i < t; ++i) {
    const uint32_t* x = s.tri[i];
    for (int k = 0; k < 3; ++k) legal = legal & (x[k] < static_cast<uint32_t>(n));
    legal = legal & (x[0] != x[1]) & (x[1] != x[2]) & (x[2] != x[0]);
  }
  bool ok = m.ValidateTriangles().ok();
  vc_assert(ok == legal, "validation succeeds exactly when all triangles have three distinct existing vertices");
  check(m, s);
}
VC_PROOF(fp, triangle) {
  int kind = vc_choose("format", 0, 1), i = vc_choose("triangle", 0, 1);
  Shadow s;
  MutableMesh m = any_mesh(s, kind, 3, 2);
  std::array<uint32_t, 3> x = {2, 0, 1};
  m.SetTriangleIndices(i, x);
  Triangle t = m.GetTriangle(i);
  int o = offset(kind, position(kind));
  bool ok = true;
  const Point p[3] = {t.p0, t.p1, t.p2};
  for (int k = 0; k < 3; ++k) ok = ok & vc_same(p[k].x, s.v[x[k]][o]) & vc_same(p[k].y, s.v[x[k]][o + 1]);
  vc_assert(ok, "a triangle has the positions of its vertices, in order");
}
