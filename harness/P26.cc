// Spatial index.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc
// VC-OPT: max_iter=200
// VC-BOUND: trees of up to three elements with arbitrary boxes; trees of up to 40 elements laid out in five patterns, with arbitrary query boxes and stopping points; branching factors 2, 3 and 16
#include "rtree.h"
static void layout(int kind, int n) {
  for (int i = 0; i < n; ++i) {
    int x = 0, y = 0, w = 1, h = 1;
    if (kind == 0) x = i % 6 * 3, y = i / 6 * 3;                       // grid
    if (kind == 1) x = (i * 7) % 41, y = (i * 11) % 37, w = i % 5, h = i % 3;  // scattered, some degenerate
    if (kind == 2) x = i, y = -i, w = 4, h = 4;                       // overlapping diagonal
    if (kind == 3) x = 5, y = 5, w = 2, h = 2;                        // all the same
    if (kind == 4) x = -i, y = 0, w = 2 * i, h = n - i;               // nested
    g_box[i][0] = x; g_box[i][1] = y; g_box[i][2] = x + w; g_box[i][3] = y + h;
  }
}
VC_PROOF(fp, empty) { Rect q = numrect(); g_stop = 0; query<2>(0, q, false); query<16>(0, q, true); }
VC_PROOF(fp, default_constructed) { Rect q = numrect(); int calls = 0; StaticRTree<int> tree; tree.VisitIntersectedElements(q, [&calls](const int&) { ++calls; return true; }); vc_assert(calls == 0, "an empty index has nothing to visit"); }
VC_PROOF(fp, one) { any_boxes(1); Rect q = numrect(); g_stop = 0; query<2>(1, q, false); }
VC_PROOF(fp, two) { any_boxes(2); Rect q = numrect(); g_stop = 0; query<2>(2, q, false); }
VC_PROOF(fp, two_stopping) { any_boxes(2); Rect q = numrect(); g_stop = 1; query<2>(2, q, true); }
#define LAYOUT(K, N, B) VC_PROOF(fp, layout_##K##_##N##_##B) { layout(K, N); Rect q = numrect(); g_stop = 0; query<B>(N, q, N & 1); }
LAYOUT(0, 4, 2) LAYOUT(1, 5, 2) LAYOUT(2, 9, 3) LAYOUT(1, 17, 16) LAYOUT(3, 20, 2) LAYOUT(4, 13, 2) LAYOUT(0, 40, 3) LAYOUT(1, 40, 2) LAYOUT(1, 40, 16)
#define STOP(K, N, B) VC_PROOF(fp, stop_##K##_##N##_##B) { layout(K, N); Rect q = numrect(); g_stop = vc_i32("stop"); query<B>(N, q, false); }
STOP(0, 7, 2) STOP(1, 18, 16) STOP(2, 9, 3)
