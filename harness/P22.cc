// Coding parameters cover the bounds they were made for.
// VC-SOURCES: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// VC-OPT: nomerge=1
// VC-ASSUME: that every value packs to a code that fits is proved over IEEE floats for components of 6, 8 and 20 bits, and over the reals for the other widths
#include "vc.h"
#include <optional>
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
using namespace ink::mesh_internal;
using Ty = MeshFormat::AttributeType;
using Component = MeshAttributeCodingParams::ComponentCodingParams;
// A type with components of the given number of bits.
static Ty type_with(int bits) {
  switch (bits) {
    case 6: return Ty::kFloat4PackedIn1Float;
    case 8: return Ty::kFloat1PackedIn1UnsignedByte;
    case 10: return Ty::kFloat3PackedIn4UnsignedBytes_XYZ10;
    case 12: return Ty::kFloat2PackedIn1Float;
    case 16: return Ty::kFloat3PackedIn2Floats;
    case 18: return Ty::kFloat4PackedIn3Floats;
  }
  return Ty::kFloat2PackedIn4UnsignedBytes_X12_Y20;
}
// The last component varies, the others have bounds [0, 1].
static void params(int bits) {
  Ty t = type_with(bits);
  int n = MeshFormat::ComponentCount(t);
  MeshAttributeBounds b{SmallArray<float, 4>(n), SmallArray<float, 4>(n)};
  for (int i = 0; i + 1 < n; ++i) b.minimum[i] = 0, b.maximum[i] = 1;
  float lo = b.minimum[n - 1] = vc_finite_float("lo"), hi = b.maximum[n - 1] = vc_finite_float("hi");
  vc_assume(lo <= hi);
  auto p = ComputeCodingParams(t, b);
  bool ok = p.ok();
  vc_assert(ok == vc_finite(hi - lo), "parameters are rejected exactly for an extent that is not finite");
  if (!ok) return;
  vc_assert(p->components.Size() == n, "one pair of parameters per component");
  Component c = p->components[n - 1];
  vc_assert(c.offset == lo, "the offset is the lower bound");
  vc_assert(vc_finite(c.scale) & (c.scale > 0), "the scale is positive and finite");
}
#define PARAMS(N) VC_PROOF(fp, params_##N) { params(N); }
PARAMS(6) PARAMS(8) PARAMS(10) PARAMS(12) PARAMS(16) PARAMS(18) PARAMS(20)
// Every value between the bounds gets a code that fits.
static void covers(int bits) {
  Ty t = type_with(bits);
  int n = MeshFormat::ComponentCount(t);
  MeshAttributeBounds b{SmallArray<float, 4>(n), SmallArray<float, 4>(n)};
  for (int i = 0; i < n; ++i) b.minimum[i] = 0, b.maximum[i] = 1;
  float lo = b.minimum[0] = vc_finite_float("lo"), hi = b.maximum[0] = vc_finite_float("hi"), v = vc_finite_float("value");
  vc_assume((lo < hi) & (lo <= v) & (v <= hi));
  auto p = ComputeCodingParams(t, b);
  if (!p.ok()) return;
  Component c = p->components[0];
  float max = static_cast<float>((1 << bits) - 1), range = hi - lo, d = v - lo;
  vc_assert((d >= 0) & (d <= range), "lemma: the value lies within the extent");
  float x = d / c.scale;
  vc_assert(x >= 0, "lemma: the quotient is not negative");
  vc_assert(range / c.scale < max + 0.5f, "lemma: the extent fits [by scale]");
  vc_assert(x < max + 0.5f, "lemma: the value fits [by extent; quotient]");
  uint32_t q = PackSingleFloat(c, v);
  vc_assert(q <= static_cast<uint32_t>(max), "every value between the bounds packs to a code that fits");
}
#define COVERS(M, N) VC_PROOF(M, covers_##N) { covers(N); }
COVERS(fp, 6) COVERS(fp, 8) COVERS(real, 10) COVERS(real, 12) COVERS(real, 16) COVERS(real, 18) COVERS(fp, 20)

// Unpacked types and the array of all attributes.
VC_PROOF(fp, unpacked) {
  Ty t = vc_choose("type", 0, 3) == 0 ? Ty::kFloat1Unpacked : vc_choose("pair", 0, 1) ? Ty::kFloat2Unpacked : Ty::kFloat4Unpacked;
  int n = MeshFormat::ComponentCount(t);
  auto p = ComputeCodingParams(t, {});
  bool ok = p.ok();
  for (int i = 0; ok && i < n; ++i) ok = p->components[i].offset == 0 && p->components[i].scale == 1;
  vc_assert(ok && p->components.Size() == n, "unpacked attributes have the identity parameters");
}
static MeshFormat format() {
  return *MeshFormat::Create({{Ty::kFloat2PackedIn1Float, MeshFormat::AttributeId::kPosition}, {Ty::kFloat3Unpacked, MeshFormat::AttributeId::kColorShiftHsl}, {Ty::kFloat1PackedIn1UnsignedByte, MeshFormat::AttributeId::kOpacityShift}}, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
}
static AttributeBoundsArray bounds(float lo, float hi) {
  AttributeBoundsArray b(3);
  b[0] = {{0, -8}, {4095, 8}};
  b[1] = {{0, 0, 0}, {1, 1, 1}};
  b[2] = {{lo}, {hi}};
  return b;
}
VC_PROOF(fp, array) {
  float lo = vc_finite_float("lo"), hi = vc_finite_float("hi");
  vc_assume(lo <= hi);
  auto r = ComputeCodingParamsArray(format(), bounds(lo, hi));
  bool ok = r.ok();
  vc_assert(ok == vc_finite(hi - lo), "parameters are rejected exactly when one extent is not finite");
  if (!ok) return;
  auto one = ComputeCodingParams(Ty::kFloat1PackedIn1UnsignedByte, {{lo}, {hi}});
  vc_assert(one.ok() && r->Size() == 3 && (*r)[2].components.Size() == 1, "one set of parameters per attribute");
  vc_assert(((*r)[2].components[0].offset == one->components[0].offset) & ((*r)[2].components[0].scale == one->components[0].scale), "each attribute has the parameters of its bounds");
  vc_assert((*r)[0].components.Size() == 2 && (*r)[0].components[0].scale == 1 && (*r)[0].components[1].offset == -8, "each attribute has the parameters of its bounds");
  vc_assert((*r)[1].components.Size() == 3 && (*r)[1].components[2].scale == 1 && (*r)[1].components[2].offset == 0, "each attribute has the parameters of its bounds");
}
VC_PROOF(fp, array_sizes) {
  int n = vc_choose("bounds", 0, 4), m = vc_choose("custom", 0, 4);
  AttributeBoundsArray b(n), all = bounds(1, 2);
  for (int i = 0; i < n; ++i) b[i] = all[i % 3];
  std::optional<MeshAttributeCodingParams> custom[4];
  auto r = ComputeCodingParamsArray(format(), b, absl::Span<const std::optional<MeshAttributeCodingParams>>(custom, m));
  vc_assert(r.ok() == (n == 3 && (m == 0 || m == 3)), "bounds and custom parameters must match the attributes");
}
VC_PROOF(fp, custom_unpacked) {
  std::optional<MeshAttributeCodingParams> custom[3];
  custom[1] = MeshAttributeCodingParams{{Component{0, 1}, Component{0, 1}, Component{0, 1}}};
  vc_assert(!ComputeCodingParamsArray(format(), bounds(0, 1), custom).ok(), "no custom parameters for unpacked attributes");
}
VC_PROOF(fp, custom_count) {
  std::optional<MeshAttributeCodingParams> custom[3];
  int n = vc_choose("n", 0, 3);
  custom[0] = MeshAttributeCodingParams{SmallArray<Component, 4>(n, Component{-8, 2})};
  vc_assert(ComputeCodingParamsArray(format(), bounds(0, 1), custom).ok() == (n == 2), "custom parameters need one pair per component");
}
// Custom parameters are taken exactly when they can represent the bounds.
VC_PROOF(fp, custom) {
  Component c{vc_float("offset"), vc_float("scale")};
  std::optional<MeshAttributeCodingParams> custom[3];
  custom[2] = MeshAttributeCodingParams{{c}};
  float lo = vc_finite_float("lo"), hi = vc_finite_float("hi");
  vc_assume((lo <= hi) & vc_finite(hi - lo));
  auto r = ComputeCodingParamsArray(format(), bounds(lo, hi), custom);
  bool ok = r.ok();
  if (ok) {
    vc_assert(vc_finite(c.offset) & vc_finite(c.scale) & (c.scale > 0), "accepted parameters are finite with a positive scale");
    vc_assert(((*r)[2].components[0].offset == c.offset) & ((*r)[2].components[0].scale == c.scale), "accepted parameters are used");
    float a = (lo - c.offset) / c.scale, b = (hi - c.offset) / c.scale;
    vc_assert((a > -0.5f) & (a < 255.5f) & (b > -0.5f) & (b < 255.5f), "accepted parameters represent the bounds");
  } else {
    bool legal = vc_finite(c.offset) & vc_finite(c.scale) & (c.scale > 0);
    float a = (lo - c.offset) / c.scale, b = (hi - c.offset) / c.scale;
    vc_assert(!(legal & (a >= 0) & (a <= 255) & (b >= 0) & (b <= 255)), "parameters that represent the bounds are accepted");
  }
}
