// AffineTransform::Find rejects degenerate sources, on IEEE floats: the source's own (rounded) area decides.
// VC-SOURCES: ink/geometry/affine_transform.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/quad.cc ink/geometry/angle.cc ink/geometry/triangle.cc
#include "geo.h"
#include "ink/geometry/affine_transform.h"
static Point apt() { float x = vc_float("x"), y = vc_float("y"); return {x, y}; }
// natively, make degenerate shapes likely: corners on a line through a far point
static Triangle tri() {
  Point a = apt(), b = apt(), c = apt();
  return Triangle{a, b, c};
}
VC_PROOF(fpuf, find_degenerate_triangle) {
  Triangle f = tri(), g = tri();
  auto t = AffineTransform::Find(f, g);
  vc_assert(vc_implies(f.SignedArea() == 0, !t.has_value()), "Find(triangle) has no result for a source of zero area");
}
