// Spatial index of arbitrary boxes, whatever order sorting leaves the elements in.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc
// VC-OPT: max_iter=200
// VC-STUB: ^void std::(stable_)?sort<(unsigned int\*|__gnu_cxx::__normal_iterator<unsigned int) => vc_any_order
// VC-ASSUME: std::sort by its contract (it permutes the elements; every permutation of up to three, some of four)
#include "rtree.h"
static int g_order[4];
// The first sort of the elements leaves them in the given order, the second one (within a slice) permutes them once more.
extern "C" void vc_any_order(uint32_t* first, uint32_t* last, void*) {
  uint32_t old[4];
  int n = static_cast<int>(last - first);
  for (int i = 0; i < n && i < 4; ++i) old[i] = first[i];
  for (int i = 0, k = 0; i < 4; ++i) if (g_order[i] < n) first[k++] = old[g_order[i]];
}
static void ordered(int n, int a, int b, int c, int d, bool generated) {
  g_order[0] = a; g_order[1] = b; g_order[2] = c; g_order[3] = d;
  any_boxes(n);
  Rect q = numrect();
  g_stop = 0;
  query<2>(n, q, generated);
}
#define ORDER3(A, B, C) VC_PROOF(fp, three_##A##B##C) { ordered(3, A, B, C, 3, A == 0); }
ORDER3(0, 1, 2) ORDER3(0, 2, 1) ORDER3(1, 0, 2) ORDER3(1, 2, 0) ORDER3(2, 0, 1) ORDER3(2, 1, 0)
#define ORDER4(A, B, C, D) VC_PROOF(fp, four_##A##B##C##D) { ordered(4, A, B, C, D, false); }
ORDER4(0, 1, 2, 3) ORDER4(2, 0, 3, 1)
