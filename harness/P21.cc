// Packed attributes and triangle indices are stored exactly.
// VC-SOURCES: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// VC-STUB: ^ink::mesh_internal::PackSingleFloat\( => vcstub_pack
// VC-OPT: nomerge=1
#include "vc.h"
#include <array>
#include <cstddef>
#include <vector>
#include "absl/types/span.h"
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
using namespace ink::mesh_internal;
using Ty = MeshFormat::AttributeType;
using Coding = MeshAttributeCodingParams;
using Component = MeshAttributeCodingParams::ComponentCodingParams;
// Contract of PackSingleFloat (see P21_single.cc): a code that fits; here an arbitrary one per component.
static uint32_t g_code[4];
static bool g_right;
extern "C" __attribute__((used, noinline)) uint32_t vcstub_pack(const Component& c, float value) {
  int i = static_cast<int>(value);
  g_right = g_right & (c.offset == value) & (i >= 0) & (i < 4);
  return g_code[i & 3];
}
template <int K>
static void codes(std::array<int, 4> bits) {
  constexpr Ty t = static_cast<Ty>(K);
  int n = MeshFormat::ComponentCount(t), width = MeshFormat::PackedAttributeSize(t);
  Coding params{SmallArray<Component, 4>(n)};
  SmallArray<float, 4> values(n);
  for (int i = 0; i < n; ++i) {
    uint32_t q = vc_u32("code");
    vc_assume(q < (1u << bits[i]));
    g_code[i] = q;
    // representable for every width; the stub checks that a value meets its own parameters
    params.components[i] = Component{static_cast<float>(i), 1};
    values[i] = static_cast<float>(i);
  }
  g_right = true;
  std::array<std::byte, 24> bytes;
  for (int i = 0; i < 24; ++i) bytes[i] = static_cast<std::byte>(0xA5 + i);
  PackAttribute(t, params, values, absl::MakeSpan(&bytes[4], width));
  vc_assert(g_right, "each component is packed with its own parameters");
  bool kept = true;
  for (int i = 0; i < 24; ++i) if (i < 4 || i >= 4 + width) kept = kept & (bytes[i] == static_cast<std::byte>(0xA5 + i));
  vc_assert(kept, "packing writes only the bytes of the attribute");
  auto codes = UnpackIntegersFromPackedAttribute(t, absl::MakeConstSpan(&bytes[4], width));
  vc_assert(codes.Size() == n, "one code per component");
  for (int i = 0; i < n; ++i) vc_assert(codes[i] == g_code[i], "codes are read back exactly");
  for (int i = 0; i < n; ++i) params.components[i] = Component{static_cast<float>(i), 0.5f};
  auto unpacked = UnpackAttribute(t, params, absl::MakeConstSpan(&bytes[4], width));
  vc_assert(unpacked.Size() == n, "one value per component");
  for (int i = 0; i < n; ++i) vc_assert(unpacked[i] == static_cast<float>(g_code[i]) * 0.5f + static_cast<float>(i), "a code stands for offset plus code times scale");
}
VC_PROOF(fp, codes_1_in_byte) { codes<1>({8}); }
VC_PROOF(fp, codes_2_in_float) { codes<3>({12, 12}); }
VC_PROOF(fp, codes_2_in_3_bytes) { codes<4>({12, 12}); }
VC_PROOF(fp, codes_2_in_4_bytes) { codes<5>({12, 20}); }
VC_PROOF(fp, codes_3_in_float) { codes<7>({8, 8, 8}); }
VC_PROOF(fp, codes_3_in_2_floats) { codes<8>({16, 16, 16}); }
VC_PROOF(fp, codes_3_in_4_bytes) { codes<9>({10, 10, 10}); }
VC_PROOF(fp, codes_4_in_float) { codes<11>({6, 6, 6, 6}); }
VC_PROOF(fp, codes_4_in_2_floats) { codes<12>({12, 12, 12, 12}); }
VC_PROOF(fp, codes_4_in_3_floats) { codes<13>({18, 18, 18, 18}); }
template <int K>
static void unpacked() {
  constexpr Ty t = static_cast<Ty>(K);
  int n = MeshFormat::ComponentCount(t);
  SmallArray<float, 4> values(n);
  for (int i = 0; i < n; ++i) values[i] = vc_finite_float("value");
  std::array<std::byte, 24> bytes;
  for (int i = 0; i < 24; ++i) bytes[i] = static_cast<std::byte>(0xA5 + i);
  PackAttribute(t, {}, values, absl::MakeSpan(&bytes[4], 4 * n));
  bool kept = true;
  for (int i = 0; i < 24; ++i) if (i < 4 || i >= 4 + 4 * n) kept = kept & (bytes[i] == static_cast<std::byte>(0xA5 + i));
  vc_assert(kept, "packing writes only the bytes of the attribute");
  auto v = UnpackAttribute(t, {}, absl::MakeConstSpan(&bytes[4], 4 * n)), w = ReadFloatsFromUnpackedAttribute(t, absl::MakeConstSpan(&bytes[4], 4 * n));
  vc_assert(v.Size() == n && w.Size() == n, "one value per component");
  for (int i = 0; i < n; ++i) vc_assert(vc_same(v[i], values[i]) & vc_same(w[i], values[i]), "unpacked values are kept exactly");
}
VC_PROOF(fp, unpacked_1) { unpacked<0>(); }
VC_PROOF(fp, unpacked_2) { unpacked<2>(); }
VC_PROOF(fp, unpacked_3) { unpacked<6>(); }
VC_PROOF(fp, unpacked_4) { unpacked<10>(); }
// Triangle indices in a buffer of three triangles.
template <int STRIDE>
static void triangles() {
  std::vector<std::byte> data(9 * STRIDE);
  uint32_t t[3][3];
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 3; ++k) t[i][k] = STRIDE == 2 ? vc_u16("index") : vc_u32("index");
    WriteTriangleIndicesToByteArray(i, STRIDE, t[i], data);
  }
  int at = vc_choose("at", 0, 2);
  for (int k = 0; k < 3; ++k) t[at][k] = STRIDE == 2 ? vc_u16("new") : vc_u32("new");
  WriteTriangleIndicesToByteArray(at, STRIDE, t[at], data);
  vc_assert(data.size() == 9 * STRIDE, "writing triangles keeps the buffer size");
  bool ok = true;
  for (int i = 0; i < 3; ++i) {
    auto r = ReadTriangleIndicesFromByteArray(i, STRIDE, data);
    ok = ok & (r[0] == t[i][0]) & (r[1] == t[i][1]) & (r[2] == t[i][2]);
  }
  vc_assert(ok, "triangle indices are read back as last written, and other triangles are untouched");
}
VC_PROOF(fp, triangles_16) { triangles<2>(); }
VC_PROOF(fp, triangles_32) { triangles<4>(); }
