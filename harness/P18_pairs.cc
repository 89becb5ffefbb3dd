// Distances of pairs of triangles, rectangles and quads, over the contracts of segment/shape and point/shape distance and of the intersection tests.
// VC-SOURCES: ink/geometry/distance.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-STUB: ^ink::Distance\(ink::Point, ink::Triangle const&\) => vc_point_t
// VC-STUB: ^ink::Distance\(ink::Segment const&, ink::Triangle const&\) => vc_edge_t
// VC-STUB: ^ink::Distance\(ink::Point, ink::Rect const&\) => vc_point_r
// VC-STUB: ^ink::Distance\(ink::Segment const&, ink::Rect const&\) => vc_edge_r
// VC-STUB: ^ink::Distance\(ink::Point, ink::Quad const&\) => vc_point_q
// VC-STUB: ^ink::Distance\(ink::Segment const&, ink::Quad const&\) => vc_edge_q
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Triangle const&\) => vc_meet_pt
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Rect const&\) => vc_meet_pr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Quad const&\) => vc_meet_pq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Triangle const&\) => vc_meet_st
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Rect const&\) => vc_meet_sr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Quad const&\) => vc_meet_sq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Triangle const&\) => vc_meet_tt
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Rect const&\) => vc_meet_tr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Quad const&\) => vc_meet_tq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Rect const&, ink::Rect const&\) => vc_meet_rr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Rect const&, ink::Quad const&\) => vc_meet_rq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Quad const&, ink::Quad const&\) => vc_meet_qq
// VC-ASSUME: callees of the distances between larger shapes by their contracts (segment/shape and point/shape distance: proofs in P18; intersection: P17); that the edges of either shape decide the distance of disjoint convex shapes is the standard argument written out in DESIGN.md
#include "polys.h"
static float g_e[2][4];  // distance of an edge of one shape from the other shape
static float g_least;    // the distance of the two shapes
template <class B> static float edge(const Segment& s, const B& b) {
  Poly y = poly(b);
  for (int k = 0; k < 2; ++k) if (ident_of(y, g[1 - k])) for (int i = 0; i < g[k].edges; ++i) if (edge_ident(s, g[k], i)) return g_e[k][i];
  float r = 0;
  bool known = false;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < g[k].edges; ++i) {
    bool m = edge_same(s, g[k], i) & is(y, g[1 - k]);
    if (m) r = g_e[k][i];
    known |= m;
  }
  g_wrong |= !known;
  return r;
}
template <class B> static float corner(Point p, const B& b) {
  Poly x = poly(p), y = poly(b);
  g_wrong |= !((is(x, g[0]) & is(y, g[1])) | (is(x, g[1]) & is(y, g[0])));
  return g_least;
}
extern "C" float vc_point_t(Point p, const Triangle& b) { return corner(p, b); }
extern "C" float vc_point_r(Point p, const Rect& b) { return corner(p, b); }
extern "C" float vc_point_q(Point p, const Quad& b) { return corner(p, b); }
extern "C" float vc_edge_t(const Segment& s, const Triangle& b) { return edge(s, b); }
extern "C" float vc_edge_r(const Segment& s, const Rect& b) { return edge(s, b); }
extern "C" float vc_edge_q(const Segment& s, const Quad& b) { return edge(s, b); }
template <class A, class B> static void run(A a, B b) {
  make(a); make(b);
  g[0] = poly(a); g[1] = poly(b);
  g[0].dot = dot(a); g[1].dot = dot(b);
  g_meet = vc_bool("meet"); g_wrong = false; g_least = length();
  for (int k = 0; k < 2; ++k) {
    bool some = false;
    for (int i = 0; i < g[k].edges; ++i) {
      g_e[k][i] = length();
      vc_assume((vc_mode() == 3) | (g_e[k][i] >= g_least));
      some |= g_e[k][i] == g_least;
    }
    vc_assume(some | g_meet);  // the edges of either shape decide the distance, unless one is inside the other
  }
  vc_assume(vc_implies(g_meet, g_least == 0));
  float r = Distance(a, b);
#ifdef VC_SYMBOLIC
  vc_assert(!g_wrong, "only parts of the two shapes are measured");
  vc_assert(r == g_least, "the distance of two shapes is 0 if they meet, and otherwise the least distance of their edges");
#else
  concrete(r);
#endif
}
#define R urect()
#define Q unit()
VC_PROOF(fp, triangle_triangle) { run(Triangle{}, Triangle{}); }
VC_PROOF(fp, triangle_rect) { run(Triangle{}, R); }
VC_PROOF(fp, triangle_quad) { run(Triangle{}, Q); }
VC_PROOF(fp, rect_triangle) { run(R, Triangle{}); }
VC_PROOF(fp, rect_rect) { run(R, R); }
VC_PROOF(fp, rect_quad) { run(R, Q); }
VC_PROOF(fp, quad_triangle) { run(Q, Triangle{}); }
VC_PROOF(fp, quad_rect) { run(Q, R); }
VC_PROOF(fp, quad_quad) { run(Q, Q); }
