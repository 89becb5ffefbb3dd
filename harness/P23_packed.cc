// Packed immutable meshes: every attribute of every vertex is packed once, with its own parameters, and unpacked from the same bytes.
// VC-SOURCES: ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/internal/mesh_packing.cc ink/geometry/triangle.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/vec.cc ink/geometry/angle.cc
// VC-STUB: ^ink::mesh_internal::PackAttribute\( => vcstub_pack
// VC-STUB: ^ink::mesh_internal::UnpackAttribute\( => vcstub_unpack
// VC-STUB: ^ink::mesh_internal::UnpackIntegersFromPackedAttribute\( => vcstub_codes
// VC-STUB: ^ink::mesh_internal::ComputeCodingParamsArray\( => vcstub_coding
// VC-OPT: nomerge=1 joinequal=1 max_states=4000 max_iter=64
#include "vc.h"
#include <cstddef>
#include <cstdint>
#include <optional>
#include "absl/types/span.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh.h"
using namespace ink;
using namespace ink::mesh_internal;
using F = MeshFormat;
using Ty = F::AttributeType;
using Id = F::AttributeId;
using Floats = absl::Span<const float>;
using Coding = MeshAttributeCodingParams;
using Component = MeshAttributeCodingParams::ComponentCodingParams;
using Custom = std::optional<MeshAttributeCodingParams>;
// Contract of packing (see P21): what is packed into some bytes with some type is read back from these bytes with this type,
// up to quantisation. The stand-ins mark the bytes with the number of the call and remember its arguments.
struct Call { Ty type; int n; float value[4], offset[4], scale[4]; size_t width; };
static Call g_call[16];
static int g_calls;
static bool g_consistent;
extern "C" __attribute__((used, noinline)) void vcstub_pack(Ty type, const Coding& c, const SmallArray<float, 4>& value, absl::Span<std::byte> bytes) {
  Call& call = g_call[g_calls];
  g_consistent = g_consistent && value.Size() == F::ComponentCount(type) && bytes.size() == F::PackedAttributeSize(type) && c.components.Size() == value.Size();
  call.type = type, call.n = value.Size(), call.width = bytes.size();
  for (int i = 0; i < value.Size(); ++i) call.value[i] = value[i], call.offset[i] = c.components[i].offset, call.scale[i] = c.components[i].scale;
  for (size_t i = 0; i < bytes.size(); ++i) bytes[i] = static_cast<std::byte>(16 * (g_calls + 1) + i);
  ++g_calls;
}
static int call_of(Ty type, absl::Span<const std::byte> bytes) {
  int k = static_cast<int>(bytes[0]) / 16 - 1;
  bool ok = k >= 0 && k < g_calls && g_call[k].type == type && g_call[k].width == bytes.size();
  for (size_t i = 0; i < bytes.size(); ++i) ok = ok && bytes[i] == static_cast<std::byte>(16 * (k + 1) + i);
  g_consistent = g_consistent && ok;
  return ok ? k : 0;
}
extern "C" __attribute__((used, noinline)) SmallArray<float, 4> vcstub_unpack(Ty type, const Coding& c, absl::Span<const std::byte> bytes) {
  const Call& call = g_call[call_of(type, bytes)];
  SmallArray<float, 4> v(call.n);
  g_consistent = g_consistent && c.components.Size() == call.n;
  for (int i = 0; i < call.n; ++i) {
    v[i] = call.value[i];
    g_consistent = g_consistent & (c.components[i].offset == call.offset[i]) & (c.components[i].scale == call.scale[i]);
  }
  return v;
}
extern "C" __attribute__((used, noinline)) SmallArray<uint32_t, 4> vcstub_codes(Ty type, absl::Span<const std::byte> bytes) {
  int k = call_of(type, bytes);
  SmallArray<uint32_t, 4> v(g_call[k].n);
  for (int i = 0; i < g_call[k].n; ++i) v[i] = 100 * k + i;
  return v;
}
// Contract of ComputeCodingParamsArray (see P22): some parameters for each attribute, or an error.
static bool g_coding_ok;
static AttributeBoundsArray g_bounds;
static size_t g_custom;
extern "C" __attribute__((used, noinline)) absl::StatusOr<CodingParamsArray> vcstub_coding(const F& format, const AttributeBoundsArray& bounds, absl::Span<const Custom> custom) {
  g_bounds = bounds, g_custom = custom.size();
  if (!g_coding_ok) return absl::InvalidArgumentError("");
  CodingParamsArray r(format.Attributes().size());
  for (int a = 0; a < r.Size(); ++a) {
    r[a].components = SmallArray<Component, 4>(F::ComponentCount(format.Attributes()[a].type));
    for (int i = 0; i < r[a].components.Size(); ++i) r[a].components[i] = Component{10.f * a + i, 1.f + a};
  }
  return r;
}
static F packed(int kind) {
  if (kind == 0) return *F::Create({{Ty::kFloat1PackedIn1UnsignedByte, Id::kOpacityShift}, {Ty::kFloat2PackedIn1Float, Id::kPosition}}, F::IndexFormat::k16BitUnpacked16BitPacked);
  return *F::Create({{Ty::kFloat2PackedIn3UnsignedBytes_XY12, Id::kPosition}, {Ty::kFloat1PackedIn1UnsignedByte, Id::kSideLabel}}, F::IndexFormat::k32BitUnpacked16BitPacked);
}
static float g_v[3][2];
static void contents(int kind, int n) {
  for (int a = 0; a < 3; ++a) for (int i = 0; i < n; ++i) g_v[a][i] = vc_finite_float("value");
  Floats s[3];
  for (int a = 0; a < 3; ++a) s[a] = Floats(g_v[a], n);
  g_calls = 0, g_consistent = true, g_coding_ok = true;
  auto r = Mesh::Create(packed(kind), s, {});
  bool ok = r.ok();
  vc_assert(ok, "a mesh is created from finite values that have coding parameters");
  if (!ok) return;
  vc_assert(r->VertexCount() == static_cast<uint32_t>(n) && r->RawVertexData().size() == n * packed(kind).PackedVertexStride(), "the packed data hold exactly the vertices");
  vc_assert(g_calls == 2 * n, "every attribute of every vertex is packed once");
  bool same = true;
  int p = kind == 0 ? 1 : 0, x = kind == 0 ? 1 : 0, other = kind == 0 ? 0 : 2;
  for (int i = 0; i < n; ++i) {
    auto v = r->FloatVertexAttribute(i, p), w = r->FloatVertexAttribute(i, 1 - p);
    Point q = r->VertexPosition(i);
    same = same && v.Size() == 2 && w.Size() == 1;
    same = same & vc_same(v[0], g_v[x][i]) & vc_same(v[1], g_v[x + 1][i]) & vc_same(w[0], g_v[other][i]) & vc_same(q.x, g_v[x][i]) & vc_same(q.y, g_v[x + 1][i]);
    auto c = r->PackedIntegersForFloatVertexAttribute(i, p);
    same = same && c.Size() == 2 && c[1] == c[0] + 1 && g_call[c[0] / 100].type == packed(kind).Attributes()[p].type;
  }
  vc_assert(same, "attributes are unpacked from where they were packed");
  vc_assert(g_consistent, "attributes are packed and unpacked with the type, parameters and bytes of their own");
}
VC_PROOF(fp, contents_byte_first_1) { contents(0, 1); }
VC_PROOF(fp, contents_byte_first_2) { contents(0, 2); }
VC_PROOF(fp, contents_position_first_2) { contents(1, 2); }
VC_PROOF(fp, coding) {
  float lo = vc_finite_float("a"), hi = vc_finite_float("b");
  const float zero[2] = {0, 0}, v[2] = {lo, hi};
  Floats s[3] = {v, zero, v};
  Custom custom[2];
  g_calls = 0, g_consistent = true, g_coding_ok = vc_choose("coding", 0, 1);
  auto r = Mesh::Create(packed(0), s, {}, absl::Span<const Custom>(custom, vc_choose("custom", 0, 2)));
  vc_assert(r.ok() == g_coding_ok, "a mesh needs coding parameters that represent its values");
  float least = lo < hi ? lo : hi, greatest = lo < hi ? hi : lo;
  vc_assert((g_bounds[0].minimum[0] == least) & (g_bounds[0].maximum[0] == greatest) & (g_bounds[1].maximum[0] == 0) & (g_bounds[1].minimum[1] == least) & (g_bounds[1].maximum[1] == greatest), "coding parameters are those of the bounds of the values");
  if (!r.ok()) return;
  auto u = r->VertexAttributeUnpackingParams(1);
  vc_assert(u.components.Size() == 2 && u.components[0].offset == 10 && u.components[1].offset == 11 && u.components[1].scale == 2, "the mesh keeps its coding parameters");
}
VC_PROOF(fp, custom) {
  static const float one[1] = {1};
  Floats s[3] = {one, one, one};
  Custom custom[2];
  int n = vc_choose("custom", 0, 2);
  g_calls = 0, g_coding_ok = true;
  auto r = Mesh::Create(packed(0), s, {}, absl::Span<const Custom>(custom, n));
  vc_assert(r.ok() && g_custom == static_cast<size_t>(n), "custom parameters are taken into account");
}
