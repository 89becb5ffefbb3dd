// Stroke vertices in a mesh: what is written is read back, clamped to the packable range; other vertices and attributes are untouched.
// VC-SOURCES: ink/strokes/internal/stroke_vertex.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// VC-OPT: max_iter=64
// VC-BOUND: meshes of up to 3 vertices
#include "vc.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink;
using namespace ink::strokes_internal;
using V = StrokeVertex;
static float num(const char* n) { float f = vc_float(n); vc_assume(!vc_isnan(f)); return f; }
static V any_vertex() {
  V v;
  v.position = {num("x"), num("y")};
  auto& a = v.non_position_attributes;
  a.opacity_shift = num("op");
  a.hsl_shift = {num("h"), num("s"), num("l")};
  a.side_derivative = {num("sx"), num("sy")};
  a.side_label.encoded_value = num("sl");
  a.forward_derivative = {num("fx"), num("fy")};
  a.forward_label.encoded_value = num("fl");
  a.surface_uv = {num("u"), num("v")};
  return v;
}
static float clamp1(float x) { return x < -1 ? -1.f : x > 1 ? 1.f : x; }
static V clamped(V v) {
  auto& a = v.non_position_attributes;
  a.opacity_shift = clamp1(a.opacity_shift);
  for (float& f : a.hsl_shift) f = clamp1(f);
  return v;
}
static bool eq(const V& v, const V& w) {
  const auto &a = v.non_position_attributes, &b = w.non_position_attributes;
  return (v.position.x == w.position.x) & (v.position.y == w.position.y) & (a.opacity_shift == b.opacity_shift) & (a.hsl_shift[0] == b.hsl_shift[0]) & (a.hsl_shift[1] == b.hsl_shift[1]) &
         (a.hsl_shift[2] == b.hsl_shift[2]) & (a.side_derivative.x == b.side_derivative.x) & (a.side_derivative.y == b.side_derivative.y) &
         (a.side_label.encoded_value == b.side_label.encoded_value) & (a.forward_derivative.x == b.forward_derivative.x) & (a.forward_derivative.y == b.forward_derivative.y) &
         (a.forward_label.encoded_value == b.forward_label.encoded_value) & (a.surface_uv.x == b.surface_uv.x) & (a.surface_uv.y == b.surface_uv.y);
}
VC_PROOF(fp, append) {
  MutableMesh m(V::FullMeshFormat());
  V v[3];
  for (int i = 0; i < 3; ++i) {
    v[i] = any_vertex();
    V::AppendToMesh(m, v[i]);
    v[i] = clamped(v[i]);
    vc_assert(m.VertexCount() == static_cast<uint32_t>(i + 1), "appending adds one vertex");
  }
  for (int i = 0; i < 3; ++i) vc_assert(eq(V::GetFromMesh(m, i), v[i]), "every appended vertex is read back, clamped to the packable range");
}
static void set(int i, int what) {
  MutableMesh m(V::FullMeshFormat());
  V v[2];
  for (V& w : v) {
    w = any_vertex();
    V::AppendToMesh(m, w);
    w = clamped(w);
  }
  V n = any_vertex();
  auto &a = v[i].non_position_attributes, &b = n.non_position_attributes;
  if (what == 0) V::SetInMesh(m, i, n), v[i] = clamped(n);
  if (what == 1) V::SetSideDerivativeInMesh(m, i, b.side_derivative), a.side_derivative = b.side_derivative;
  if (what == 2) V::SetForwardDerivativeInMesh(m, i, b.forward_derivative), a.forward_derivative = b.forward_derivative;
  if (what == 3) V::SetSideLabelInMesh(m, i, b.side_label), a.side_label = b.side_label;
  if (what == 4) V::SetForwardLabelInMesh(m, i, b.forward_label), a.forward_label = b.forward_label;
  if (what == 5) V::SetSurfaceUvInMesh(m, i, b.surface_uv), a.surface_uv = b.surface_uv;
  for (int k = 0; k < 2; ++k) {
    vc_assert(eq(V::GetFromMesh(m, k), v[k]), "writing changes exactly the given attributes of the given vertex");
    const auto& c = v[k].non_position_attributes;
    Vec s = V::GetSideDerivativeFromMesh(m, k), f = V::GetForwardDerivativeFromMesh(m, k);
    Point uv = V::GetSurfaceUvFromMesh(m, k), p = m.VertexPosition(k);
    vc_assert((s.x == c.side_derivative.x) & (s.y == c.side_derivative.y) & (f.x == c.forward_derivative.x) & (f.y == c.forward_derivative.y) & (uv.x == c.surface_uv.x) & (uv.y == c.surface_uv.y) &
              (V::GetSideLabelFromMesh(m, k).encoded_value == c.side_label.encoded_value) & (V::GetForwardLabelFromMesh(m, k).encoded_value == c.forward_label.encoded_value) &
              (p.x == v[k].position.x) & (p.y == v[k].position.y), "the accessors agree with the stored vertex");
  }
  vc_assert(m.VertexCount() == 2, "writing adds no vertex");
}
VC_PROOF(fp, set_0_0) { set(0, 0); }
VC_PROOF(fp, set_0_1) { set(1, 0); }
VC_PROOF(fp, set_1_0) { set(0, 1); }
VC_PROOF(fp, set_1_1) { set(1, 1); }
VC_PROOF(fp, set_2_0) { set(0, 2); }
VC_PROOF(fp, set_2_1) { set(1, 2); }
VC_PROOF(fp, set_3_0) { set(0, 3); }
VC_PROOF(fp, set_3_1) { set(1, 3); }
VC_PROOF(fp, set_4_0) { set(0, 4); }
VC_PROOF(fp, set_4_1) { set(1, 4); }
VC_PROOF(fp, set_5_0) { set(0, 5); }
VC_PROOF(fp, set_5_1) { set(1, 5); }
VC_PROOF(fp, attribute_indices) {
  MeshFormat f = V::FullMeshFormat();
  V::FormatAttributeIndices i = V::FindAttributeIndices(f), k = V::kFullFormatAttributeIndices;
  vc_assert(i.position == k.position && i.opacity_shift == k.opacity_shift && i.hsl_shift == k.hsl_shift && i.side_derivative == k.side_derivative && i.side_label == k.side_label &&
            i.forward_derivative == k.forward_derivative && i.forward_label == k.forward_label && i.surface_uv == k.surface_uv, "the constants name the attributes of the full format");
  vc_assert(f.Attributes().size() == V::kMaxAttributeCount && f.UnpackedVertexStride() == sizeof(V), "the full format has all attributes");
}
// The fixed packing parameters cover the clamped ranges exactly, so that packed shaders can use constants.
static bool coding(const std::optional<MeshAttributeCodingParams>& p, int n, float offset, double scale) {
  if (!p.has_value() || p->components.Size() != n) return false;
  bool ok = true;
  for (int i = 0; i < n; ++i) ok = ok && p->components[i].offset == offset && p->components[i].scale == static_cast<float>(scale);
  return ok;
}
VC_PROOF(fp, packing_params) {
  V::CustomPackingArray p = V::MakeCustomPackingArray(V::FullMeshFormat());
  vc_assert(p.Size() == 8, "there is one entry per attribute");
  vc_assert(!p[0].has_value() && !p[3].has_value() && !p[5].has_value(), "positions and derivatives have no fixed packing");
  vc_assert(coding(p[1], 1, -1, 2.0 / 254), "opacity shifts are packed over [-1,1]");
  vc_assert(coding(p[2], 3, -1, 2.0 / 1022), "colour shifts are packed over [-1,1]");
  vc_assert(coding(p[4], 1, -128, 1) && coding(p[6], 1, -128, 1), "labels are packed exactly");
  vc_assert(p[7].has_value() && p[7]->components.Size() == 2 && p[7]->components[0].offset == 0 && p[7]->components[0].scale == 1.f / 4095 && p[7]->components[1].offset == 0 && p[7]->components[1].scale == 1.f / 1048575, "texture coordinates are packed over [0,1]");
}
VC_PROOF(fp, packing_skips) {
  using A = MeshFormat::AttributeId;
  const A skip[] = {A::kColorShiftHsl, A::kForwardDerivative};
  int n = vc_choose("n", 0, 2);
  V::CustomPackingArray p = V::MakeCustomPackingArray(V::FullMeshFormat(), absl::Span<const A>(skip, n)), all = V::MakeCustomPackingArray(V::FullMeshFormat());
  vc_assert(p.Size() == 8 - n, "skipped attributes have no entry");
  int k = 0;
  bool ok = true;
  for (int i = 0; i < 8; ++i) {
    if ((n > 0 && i == 2) || (n > 1 && i == 5)) continue;
    ok = ok && p[k].has_value() == all[i].has_value();
    if (all[i].has_value()) {
      ok = ok && p[k]->components.Size() == all[i]->components.Size() && p[k]->components[0].offset == all[i]->components[0].offset && p[k]->components[0].scale == all[i]->components[0].scale;
    }
    ++k;
  }
  vc_assert(ok, "the other attributes keep their packing, in order");
}
