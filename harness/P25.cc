// Partitioning triangles.
// VC-SOURCES: ink/geometry/internal/mesh_packing.cc ink/geometry/mesh_format.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=6000 max_iter=80
// VC-BOUND: two triangles with arbitrary indices (three for the limit of three vertices); three triangles over seven shapes each; strips, fans and separate triangles of up to ten triangles; limits of 3 to 13 vertices
#include "vc.h"
#include <cstddef>
#include <cstring>
#include <vector>
#include "absl/types/span.h"
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
using namespace ink::mesh_internal;
using F = MeshFormat;
constexpr int kMax = 10;
static uint32_t g_tri[kMax][3];
static void partition(int n, uint64_t limit, int wide) {
  int stride = wide ? 4 : 2;
  std::byte data[kMax * 12];
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 3; ++k) {
      uint16_t narrow = static_cast<uint16_t>(g_tri[i][k]);
      if (wide) std::memcpy(&data[(i * 3 + k) * 4], &g_tri[i][k], 4);
      else std::memcpy(&data[(i * 3 + k) * 2], &narrow, 2);
    }
  }
  auto parts = PartitionTriangles(absl::Span<const std::byte>(data, 3 * n * stride), wide ? F::IndexFormat::k32BitUnpacked16BitPacked : F::IndexFormat::k16BitUnpacked16BitPacked, limit);
  bool sizes = true, mapped = true, in_range = true, distinct = true, full = true;
  int at = 0;
  for (size_t p = 0; p < parts.size(); ++p) {
    const auto& part = parts[p];
    size_t v = part.vertex_indices.size();
    sizes = sizes & (v <= limit);
    full = full && (parts.size() == 1 || !part.triangles.empty());
    for (size_t a = 0; a < v; ++a) for (size_t b = 0; b < a; ++b) distinct = distinct & (part.vertex_indices[a] != part.vertex_indices[b]);
    for (const auto& t : part.triangles) {
      if (at >= n) { at = n + 1; break; }
      for (int k = 0; k < 3; ++k) {
        in_range = in_range & (t[k] < v);
        if (t[k] < v) mapped = mapped & (part.vertex_indices[t[k]] == g_tri[at][k]);
      }
      ++at;
    }
  }
  vc_assert(sizes, "no partition has more vertices than the limit");
  vc_assert(in_range, "indices of a partition refer to its vertices");
  vc_assert(distinct, "a partition lists each vertex once");
  vc_assert(full, "partitions are not empty");
  vc_assert(at == n, "every triangle is in exactly one partition");
  vc_assert(mapped, "triangles keep their corners and winding order");
}
static void any_triangle(int i, bool wide) {
  for (int k = 0; k < 3; ++k) g_tri[i][k] = wide ? vc_u32("index") : vc_u16("index");
  vc_assume((g_tri[i][0] != g_tri[i][1]) & (g_tri[i][0] != g_tri[i][2]) & (g_tri[i][1] != g_tri[i][2]));
}
VC_PROOF(fp, none) { partition(0, 3, 1); }
VC_PROOF(fp, one) { any_triangle(0, true); partition(1, vc_choose("limit", 3, 4), 1); }
#define TWO(L, W) VC_PROOF(fp, two_##L) { any_triangle(0, W); any_triangle(1, W); partition(2, L, W); }
TWO(3, true) TWO(4, false) TWO(5, true) TWO(6, false)
static const uint32_t kShape[7][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 3}, {3, 2, 4}, {5, 1, 6}, {4, 5, 6}, {7, 8, 9}};
#define THREE(L) VC_PROOF(fp, three_##L) { std::memcpy(g_tri[0], kShape[0], 12); std::memcpy(g_tri[1], kShape[vc_choose("second", 0, 6)], 12); std::memcpy(g_tri[2], kShape[vc_choose("third", 0, 6)], 12); partition(3, L, L & 1); }
THREE(3) THREE(4) THREE(5) THREE(6) THREE(7) THREE(9)
// Strips, fans, separate triangles, and a strip that returns to its first vertices.
VC_PROOF(fp, long_strips) {
  int kind = vc_choose("kind", 0, 3), n = vc_choose("triangles", 8, 10), limit = vc_choose("limit", 3, 13);
  for (uint32_t i = 0; i < static_cast<uint32_t>(n); ++i) {
    uint32_t base = i;
    if (kind == 0) g_tri[i][0] = base, g_tri[i][1] = base + 1, g_tri[i][2] = base + 2;
    if (kind == 1) g_tri[i][0] = 100, g_tri[i][1] = base + 1, g_tri[i][2] = base;
    if (kind == 2) g_tri[i][0] = 3 * base, g_tri[i][1] = 3 * base + 1, g_tri[i][2] = 3 * base + 2;
    if (kind == 3) g_tri[i][0] = i % 4, g_tri[i][1] = 5 + i, g_tri[i][2] = 6 + i;
  }
  partition(n, limit, n & 1);
}
VC_PROOF(fp, any_three_3) { any_triangle(0, true); any_triangle(1, true); any_triangle(2, true); partition(3, 3, 1); }
