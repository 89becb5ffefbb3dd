// A component packs to the nearest code, and unpacks within half a step.
// VC-SOURCES: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// VC-OPT: nomerge=1
#include "vc.h"
#include <array>
#include <cstddef>
#include "absl/types/span.h"
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
using namespace ink::mesh_internal;
using Component = MeshAttributeCodingParams::ComponentCodingParams;
VC_PROOF(real, nearest_code) {
  Component c{vc_finite_float("offset"), vc_finite_float("scale")};
  float v = vc_finite_float("value");
  vc_assume(c.scale > 0);
  float x = (v - c.offset) / c.scale, max = vc_ghost(static_cast<float>(vc_count("max")));
  vc_assume((x >= 0) & (x <= max) & (max <= 1048575));
  uint32_t q = PackSingleFloat(c, v);
  float code = static_cast<float>(q), e = code - x;
  vc_assert((e <= 0.5f) & (e >= -0.5f), "the code is the nearest one");
  vc_assert(code <= max, "the code fits the component");
}
VC_PROOF(fp, exact_codes) {
  uint32_t q = vc_u32("code");
  vc_assume(q < (1u << 20));
  vc_assert(PackSingleFloat(Component{0, 1}, static_cast<float>(q)) == q, "codes stand for themselves at offset zero and scale one");
}
VC_PROOF(real, half_a_step) {
  Component c{vc_finite_float("offset"), vc_finite_float("scale")};
  float v = vc_finite_float("value");
  vc_assume(c.scale > 0);
  float x = (v - c.offset) / c.scale;
  vc_assume((x >= 0) & (x <= 255));
  std::array<std::byte, 1> bytes;
  MeshAttributeCodingParams p{{c}};
  PackAttribute(MeshFormat::AttributeType::kFloat1PackedIn1UnsignedByte, p, {v}, absl::MakeSpan(bytes));
  float u = UnpackAttribute(MeshFormat::AttributeType::kFloat1PackedIn1UnsignedByte, p, absl::MakeConstSpan(bytes))[0];
  float e = (u - v) / c.scale;
  vc_assert((e <= 0.5f) & (e >= -0.5f), "an unpacked value is within half a step");
}
