// Distances of triangles, rectangles and quads, over the contracts of segment/segment and point/segment distance and of the intersection tests.
// The distance of two disjoint convex shapes is the least distance of an edge of one from an edge of the other.
// VC-SOURCES: ink/geometry/distance.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-STUB: ^ink::Distance\(ink::Segment const&, ink::Segment const&\) => vc_edge_distance
// VC-STUB: ^ink::Distance\(ink::Point, ink::Segment const&\) => vc_point_distance
// VC-STUB: ^ink::Distance\(ink::Point, ink::Point\) => vc_points_distance
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Triangle const&\) => vc_meet_pt
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Rect const&\) => vc_meet_pr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Quad const&\) => vc_meet_pq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Triangle const&\) => vc_meet_st
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Rect const&\) => vc_meet_sr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Quad const&\) => vc_meet_sq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Triangle const&\) => vc_meet_tt
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Rect const&\) => vc_meet_tr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Quad const&\) => vc_meet_tq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Rect const&, ink::Rect const&\) => vc_meet_rr
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Rect const&, ink::Quad const&\) => vc_meet_rq
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Quad const&, ink::Quad const&\) => vc_meet_qq
// VC-ASSUME: callees of the distances between larger shapes by their contracts (segment/segment, point/segment and point/point distance: proofs in P18; intersection: P17); that the edges decide the distance of disjoint convex shapes is the standard argument written out in DESIGN.md
#include "polys.h"
static float g_d[4][4];      // distance of edge i of the first from edge j of the second shape
static float g_p[2][4][4];   // distance of a corner of one shape from an edge of the other
static float g_pp;           // distance of two point-like shapes
extern "C" float vc_edge_distance(const Segment& s, const Segment& t) {
  for (int i = 0; i < g[0].edges; ++i) for (int j = 0; j < g[1].edges; ++j) if ((edge_ident(s, g[0], i) && edge_ident(t, g[1], j)) || (edge_ident(s, g[1], j) && edge_ident(t, g[0], i))) return g_d[i][j];
  float r = 0;
  bool known = false;
  for (int i = 0; i < g[0].edges; ++i) for (int j = 0; j < g[1].edges; ++j) {
    bool m = (edge_same(s, g[0], i) & edge_same(t, g[1], j)) | (edge_same(s, g[1], j) & edge_same(t, g[0], i));
    if (m) r = g_d[i][j];
    known |= m;
  }
  g_wrong |= !known;
  return r;
}
extern "C" float vc_point_distance(Point p, const Segment& s) {
  for (int k = 0; k < 2; ++k) for (int j = 0; j < g[1 - k].edges; ++j) if (edge_ident(s, g[1 - k], j)) {
    for (int i = 0; i < g[k].n; ++i) if (ident(p, g[k].c[i])) return g_p[k][i][j];
    if (g[k].dot && ident(p, g[k].mid)) return g_p[k][0][j];
  }
  float r = 0;
  bool known = false;
  for (int k = 0; k < 2; ++k) for (int j = 0; j < g[1 - k].edges; ++j) for (int i = 0; i < g[k].n; ++i) {
    bool m = edge_same(s, g[1 - k], j) & same(p, g[k].c[i]);
    if (m) r = g_p[k][i][j];
    known |= m;
  }
  g_wrong |= !known;
  return r;
}
extern "C" float vc_points_distance(Point p, Point q) {
  auto of = [](Point x, const Poly& k) { return ident(x, k.mid) || same(x, k.c[0]) | same(x, k.mid); };
  g_wrong |= !g[0].dot | !g[1].dot | !((of(p, g[0]) & of(q, g[1])) | (of(p, g[1]) & of(q, g[0])));
  return g_pp;
}
template <class A, class B> static void run(A a, B b) {
  make(a); make(b);
  bool da = vc_split(dot(a)), db = vc_split(dot(b));
  g[0] = poly(a); g[1] = poly(b);
  g[0].dot = da; g[1].dot = db;
  g_meet = vc_bool("meet"); g_wrong = false; g_pp = length();
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    g_d[i][j] = length(); g_p[0][i][j] = length(); g_p[1][i][j] = length();
  }
  // an edge that is a point has that point's distance
  for (int i = 0; i < g[0].edges; ++i) for (int j = 0; j < g[1].edges; ++j) {
    vc_assume(!same(g[0].c[i], end_of(g[0], i)) | (g_d[i][j] == g_p[0][i][j]));
    vc_assume(!same(g[1].c[j], end_of(g[1], j)) | (g_d[i][j] == g_p[1][j][i]));
  }
  float r = Distance(a, b);
#ifdef VC_SYMBOLIC
  float least = VC_INF;
  if (da & db) least = g_pp;
  else if (da) for (int j = 0; j < g[1].edges; ++j) least = fmn(least, g_p[0][0][j]);
  else if (db) for (int i = 0; i < g[0].edges; ++i) least = fmn(least, g_p[1][0][i]);
  bool point_segment = (da & (g[1].kind == kSegment)) | (db & (g[0].kind == kSegment));
  vc_assert(!g_wrong, "only parts of the two shapes are measured");
  if (da | db) {
    if (g_meet & !(da & db) & !point_segment) least = 0;
    vc_assert(r == least, "the distance from a point-like shape is 0 inside the shape, and otherwise the least distance from an edge");
  } else {
    vc_assert(vc_implies(g_meet, r == 0), "the distance of shapes that meet is 0");
    bool some = false;
    for (int i = 0; i < g[0].edges; ++i) for (int j = 0; j < g[1].edges; ++j) {
      vc_assert(r <= g_d[i][j], "the distance is not more than that of any two edges");
      some |= r == g_d[i][j];
    }
    vc_assert(some | g_meet, "the distance of shapes that are apart is that of two of their edges");
  }
#else
  concrete(r);
#endif
}
// A point and a shape.
template <class B> static void point(B b) {
  Point pt = cpt();
  make(b);
  bool db = vc_split(dot(b));
  g[0] = poly(pt); g[1] = poly(b);
  g[1].dot = db;
  g_meet = vc_bool("meet"); g_wrong = false; g_pp = length();
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g_p[0][i][j] = length();
  float r = vc_split(vc_bool("swapped")) ? Distance(b, pt) : Distance(pt, b);
#ifdef VC_SYMBOLIC
  float least = VC_INF;
  if (db) least = g_pp;
  else if (g_meet) least = 0;
  else for (int j = 0; j < g[1].edges; ++j) least = fmn(least, g_p[0][0][j]);
  vc_assert(!g_wrong, "only the point and the shape are measured");
  vc_assert(r == least, "the distance of a point is 0 inside a shape, and otherwise the least distance from an edge");
#else
  concrete(r);
#endif
}
#define R urect()
#define Q unit()
VC_PROOF(fp, segment_triangle) { run(Segment{}, Triangle{}); }
VC_PROOF(fp, segment_rect) { run(Segment{}, R); }
VC_PROOF(fp, segment_quad) { run(Segment{}, Q); }
VC_PROOF(fp, triangle_segment) { run(Triangle{}, Segment{}); }
VC_PROOF(fp, rect_segment) { run(R, Segment{}); }
VC_PROOF(fp, quad_segment) { run(Q, Segment{}); }
VC_PROOF(fp, point_triangle) { point(Triangle{}); }
VC_PROOF(fp, point_rect) { point(R); }
VC_PROOF(fp, point_quad) { point(Q); }
