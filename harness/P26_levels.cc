// Spatial index: sizes of the levels of the tree, for numbers of elements around every multiple of a power of the branching factor.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc
// VC-BOUND: level sizes for 1 to 90 elements and around every multiple of a power of the branching factor up to 2^32, for branching factors 2, 3 and 16
// VC-OPT: max_iter=40 nomerge=1 max_states=6000
#include "vc.h"
#include "absl/types/span.h"
#include "ink/geometry/internal/static_rtree.h"
using namespace ink::geometry_internal;
static void levels(uint64_t n, uint64_t b) {
  auto counts = ComputeNumberOfRTreeBranchNodesAtDepth(static_cast<uint32_t>(n), static_cast<uint32_t>(b));
  uint64_t child = n;
  bool fit = true, tight = true;
  for (size_t k = counts.size(); k-- > 0;) {
    fit = fit & (uint64_t{counts[k]} * b >= child);
    tight = tight & ((uint64_t{counts[k]} - 1) * b < child);
    child = counts[k];
  }
  vc_assert(counts.size() >= 1, "there is a root level");
  vc_assert(counts[0] == 1, "there is one root");
  vc_assert(fit, "every level has room for its children");
  vc_assert(tight, "no level has more nodes than it needs");
  auto offsets = ComputeRTreeBranchDepthOffsets(counts);
  vc_assert(offsets.size() == counts.size(), "every level has an offset");
  vc_assert(offsets[0] == 0, "the root comes first");
  for (size_t k = 1; k < counts.size() && k < offsets.size(); ++k) vc_assert(offsets[k] == offsets[k - 1] + counts[k - 1], "levels follow each other");
}
static uint64_t power(uint64_t b, int k) { uint64_t p = 1; while (k-- > 0) p *= b; return p; }
#define OF(B, K) VC_PROOF(fp, of_##B) { \
  int k = vc_choose("levels", 0, K), d = vc_choose("more", -1, 1), m = vc_choose("times", 1, B - 1); \
  uint64_t n = power(B, k) * m + d; \
  if (n == 0) n = 4294967295u; \
  vc_assume(n <= 4294967295u); \
  levels(n, B); \
}
OF(2, 31) OF(3, 20) OF(16, 7)
VC_PROOF(fp, small) { levels(vc_choose("elements", 1, 90), vc_choose("branching", 2, 5)); }
