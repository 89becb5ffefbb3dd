// Reading vertices from a byte array, and copying a subset of them in packed form.
// VC-SOURCES: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// VC-OPT: nomerge=1
// VC-BOUND: copies of 1 to 3 of 3 vertices
#include "vc.h"
#include <array>
#include <cstddef>
#include <cstring>
#include <utility>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/types/span.h"
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
using namespace ink::mesh_internal;
using Ty = MeshFormat::AttributeType;
using Id = MeshFormat::AttributeId;
using Component = MeshAttributeCodingParams::ComponentCodingParams;
constexpr int kStride = 40, kVertices = 3, kWidth[4] = {1, 2, 4, 3};
static MeshFormat format() {
  return *MeshFormat::Create({{Ty::kFloat1PackedIn1UnsignedByte, Id::kOpacityShift}, {Ty::kFloat2Unpacked, Id::kPosition}, {Ty::kFloat4Unpacked, Id::kCustom0}, {Ty::kFloat3Unpacked, Id::kColorShiftHsl}}, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
}
static float g_value[kVertices][10];
static std::vector<std::byte> vertices() {
  std::vector<std::byte> data(kVertices * kStride);
  for (int i = 0; i < kVertices; ++i) {
    for (int k = 0; k < 10; ++k) {
      // a code between 0 and 255 for the packed attribute
      g_value[i][k] = k == 0 ? static_cast<float>(vc_u8("code")) : vc_finite_float("value");
      std::memcpy(&data[i * kStride + 4 * k], &g_value[i][k], 4);
    }
  }
  return data;
}
VC_PROOF(fp, read) {
  auto f = format();
  auto data = vertices();
  vc_assert(f.UnpackedVertexStride() == kStride, "the vertex is as wide as its attributes");
  for (int i = 0; i < kVertices; ++i) {
    for (int a = 0, k = 0; a < 4; k += kWidth[a++]) {
      auto v = ReadUnpackedFloatAttributeFromByteArray(i, a, data, f);
      bool ok = v.Size() == kWidth[a];
      for (int c = 0; c < kWidth[a]; ++c) ok = ok & vc_same(v[c], g_value[i][k + c]);
      vc_assert(ok, "an attribute is read from its place in its vertex");
    }
  }
}
// The vertices listed, in order; attributes in omit are left out; overridden positions replace the stored ones.
static void copy(std::vector<uint32_t> list, bool omit_last, bool omit_custom, int overridden) {
  auto f = format();
  auto data = vertices();
  absl::flat_hash_set<Id> omit;
  if (omit_last) omit.insert(Id::kColorShiftHsl);
  if (omit_custom) omit.insert(Id::kCustom0);
  absl::flat_hash_map<uint32_t, Point> at;
  Point p{vc_finite_float("x"), vc_finite_float("y")};
  if (overridden >= 0) at.insert({static_cast<uint32_t>(overridden), p});
  int n = 4 - omit_last - omit_custom;
  CodingParamsArray params(n);
  params[0].components = SmallArray<Component, 4>{Component{0, 1}};
  auto r = CopyAndPackPartitionVertices(data, list, f, omit, params, at);
  size_t stride = 1 + 8 + (omit_custom ? 0 : 16) + (omit_last ? 0 : 12);
  vc_assert(r.size() == stride * list.size(), "each listed vertex is copied, without the omitted attributes");
  bool ok = true;
  for (size_t i = 0; i < list.size(); ++i) {
    size_t o = i * stride;
    const float* v = g_value[list[i]];
    ok = ok & (static_cast<float>(static_cast<uint8_t>(r[o])) == v[0]);
    ++o;
    for (int k = 1; k < 10; ++k) {
      if ((omit_custom && k >= 3 && k < 7) || (omit_last && k >= 7)) continue;
      float x;
      std::memcpy(&x, &r[o], 4);
      o += 4;
      bool own = static_cast<uint32_t>(overridden) == list[i] && k < 3;
      ok = ok & vc_same(x, own ? (k == 1 ? p.x : p.y) : v[k]);
    }
  }
  vc_assert(ok, "copied vertices hold the values of the originals, or the overriding position");
}
VC_PROOF(fp, copy_all) { copy({0, 1, 2}, false, false, -1); }
VC_PROOF(fp, copy_order) { copy({2, 0}, false, false, 2); }
VC_PROOF(fp, copy_omit) { copy({1, 2}, false, true, 1); }
VC_PROOF(fp, copy_omit_last) { copy({2, 1, 0}, true, false, 0); }
VC_PROOF(fp, copy_omit_both) { copy({1}, true, true, 2); }
