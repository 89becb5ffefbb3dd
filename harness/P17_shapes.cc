// Intersection of triangles, rectangles and quads, over the contracts of segment/segment intersection and of containment.
// Two closed convex shapes, neither a point, have a common point exactly when a point of one lies in the other or an edge of one meets an edge of the other.
// VC-SOURCES: ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Segment const&\) => vc_edges_meet
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Segment const&\) => vc_on_segment
// VC-STUB: ^ink::Triangle::Contains\(ink::Point\) const => vc_in_triangle
// VC-STUB: ^ink::Rect::Contains\(ink::Point\) const => vc_in_rect
// VC-STUB: ^ink::Quad::Contains\(ink::Point\) const => vc_in_quad
// VC-ASSUME: callees of the tests between larger shapes by their contracts (segment/segment and point/segment: P17; containment: P12, P15, P16); that the tests of all pairs of edges and of one point of either shape in the other decide whether two convex shapes meet is the standard argument written out in DESIGN.md
#include "geo.h"
#ifndef VC_SYMBOLIC
#include "convex.h"
#endif
#include "ink/geometry/internal/intersects_internal.h"
using namespace ink::geometry_internal;
// A convex shape: its edges and the points of it that are known to lie in it.
struct Poly { Point c[4]; Point mid; int n; };
static Poly g_a, g_b;
static bool g_asked[4][4];          // a pair of edges was tested without success
static bool g_a_in_b, g_b_in_a;     // a point of one shape was tested against the other without success
static bool g_yes, g_no, g_wrong;   // some test succeeded; a point-like test failed; a test of other shapes
static bool same(Point p, Point q) { return vc_same(p.x, q.x) & vc_same(p.y, q.y); }
static bool edge_is(const Segment& s, const Poly& q, int i) {
  Point a = q.c[i], b = q.c[i + 1 == q.n ? 0 : i + 1];
  return (same(s.start, a) & same(s.end, b)) | (same(s.start, b) & same(s.end, a));
}
static bool ident(Point p, Point q) { return vc_identical(p.x, q.x) && vc_identical(p.y, q.y); }
static bool edge_ident(const Segment& s, const Poly& q, int i) {
  Point a = q.c[i], b = q.c[i + 1 == q.n ? 0 : i + 1];
  return (ident(s.start, a) && ident(s.end, b)) || (ident(s.start, b) && ident(s.end, a));
}
static bool of(Point p, const Poly& q) {
  if (ident(p, q.mid)) return true;
  for (int i = 0; i < q.n; ++i) if (ident(p, q.c[i])) return true;
  bool r = same(p, q.mid);
  for (int i = 0; i < q.n; ++i) r |= same(p, q.c[i]);
  return r;
}
static bool answer() { bool r = vc_bool("answer"); g_yes |= r; g_no |= !r; return r; }
extern "C" bool vc_edges_meet(const Segment& s, const Segment& t) {
  bool r = answer(), known = false;
  // the very same terms settle which edges these are
  for (int i = 0; i < g_a.n; ++i) for (int j = 0; j < g_b.n; ++j) if ((edge_ident(s, g_a, i) && edge_ident(t, g_b, j)) || (edge_ident(s, g_b, j) && edge_ident(t, g_a, i))) {
    g_asked[i][j] |= !r;
    known = true;
  }
  if (known) return r;
  for (int i = 0; i < g_a.n; ++i) for (int j = 0; j < g_b.n; ++j) {
    bool m = (edge_is(s, g_a, i) & edge_is(t, g_b, j)) | (edge_is(s, g_b, j) & edge_is(t, g_a, i));
    known |= m;
    g_asked[i][j] |= m & !r;
  }
  g_wrong |= !known;
  return r;
}
static bool inside(Point p, bool poly_is_a, bool poly_is_b) {
  bool r = answer(), pa = of(p, g_a), pb = of(p, g_b);
  g_wrong |= !((poly_is_a & pb) | (poly_is_b & pa));
  g_a_in_b |= poly_is_b & pa & !r;
  g_b_in_a |= poly_is_a & pb & !r;
  return r;
}
static bool poly_is(const Point* c, int n, const Poly& q) {
  if (n != q.n) return false;
  bool r = true;
  for (int i = 0; i < n; ++i) r &= same(c[i], q.c[i]);
  return r;
}
extern "C" bool vc_on_segment(Point p, const Segment& s) { Point c[2] = {s.start, s.end}, d[2] = {s.end, s.start}; return inside(p, poly_is(c, 2, g_a) | poly_is(d, 2, g_a), poly_is(c, 2, g_b) | poly_is(d, 2, g_b)); }
extern "C" bool vc_in_triangle(const Triangle* t, Point p) { Point c[3] = {t->p0, t->p1, t->p2}; return inside(p, poly_is(c, 3, g_a), poly_is(c, 3, g_b)); }
extern "C" bool vc_in_rect(const Rect* t, Point p) { std::array<Point, 4> c = t->Corners(); return inside(p, poly_is(c.data(), 4, g_a), poly_is(c.data(), 4, g_b)); }
extern "C" bool vc_in_quad(const Quad* t, Point p) { std::array<Point, 4> c = t->Corners(); return inside(p, poly_is(c.data(), 4, g_a), poly_is(c.data(), 4, g_b)); }
static Poly poly(Point p) { return {{p, p, p, p}, p, 1}; }
static Poly poly(const Segment& s) { return {{s.start, s.end}, s.start, 2}; }
static Poly poly(const Triangle& t) { return {{t.p0, t.p1, t.p2}, t.p0, 3}; }
template <class R> static Poly poly4(const R& r) { auto c = r.Corners(); return {{c[0], c[1], c[2], c[3]}, r.Center(), 4}; }
static Poly poly(const Rect& r) { return poly4(r); }
static Poly poly(const Quad& r) { return poly4(r); }
static bool dot(const Segment& s) { return (s.start.x == s.end.x) & (s.start.y == s.end.y); }
static bool dot(const Triangle& t) { return (t.p0.x == t.p1.x) & (t.p0.y == t.p1.y) & (t.p0.x == t.p2.x) & (t.p0.y == t.p2.y); }
template <class R> static bool dot(const R& r) { return (r.Width() == 0) & (r.Height() == 0); }
// Coordinates are such that nothing overflows.
static float co(const char* n) { float f = vc_float(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); vc_assume((f > -1e15f) & (f < 1e15f)); return f; }
static Point cpt() { float x = co("px"); float y = co("py"); return {x, y}; }
static void make(Segment& s) { s.start = cpt(); s.end = cpt(); }
static void make(Triangle& t) { t.p0 = cpt(); t.p1 = cpt(); t.p2 = cpt(); }
static void make(Rect& r) { Point a = cpt(), b = cpt(); vc_assume((a.x <= b.x) & (a.y <= b.y)); r = Rect::FromTwoPoints(a, b); }
static void make(Quad& r) { Point k = cpt(); float w = co("w"), h = co("h"), s = vc_float("shear"), t = vc_float("r"); vc_assume((w >= 0) & (s > -100) & (s < 100) & ((vc_mode() != 3) | ((s > -4) & (s < 4))) & (t >= 0) & (t < 6.2831854f)); r = Quad::FromCenterDimensionsRotationAndShear(k, w, h, Angle::Radians(t), s); }
static bool apart(const Poly& a, const Poly& b) {
  float l[2][2], h[2][2];
  for (int s = 0; s < 2; ++s) {
    const Poly& q = s ? b : a;
    l[s][0] = h[s][0] = q.c[0].x; l[s][1] = h[s][1] = q.c[0].y;
    for (int i = 1; i < q.n; ++i) { l[s][0] = fmn(l[s][0], q.c[i].x); h[s][0] = fmx(h[s][0], q.c[i].x); l[s][1] = fmn(l[s][1], q.c[i].y); h[s][1] = fmx(h[s][1], q.c[i].y); }
  }
  return (h[0][0] < l[1][0]) | (h[1][0] < l[0][0]) | (h[0][1] < l[1][1]) | (h[1][1] < l[0][1]);
}
template <class A, class B> static void run(A a, B b) {
  make(a); make(b);
  vc_assume(!dot(a) & !dot(b));
  g_a = poly(a); g_b = poly(b);
  for (auto& row : g_asked) for (bool& x : row) x = false;
  g_a_in_b = g_b_in_a = g_yes = g_no = g_wrong = false;
  bool r = IntersectsInternal(a, b);
#ifdef VC_SYMBOLIC
  vc_assert(!g_wrong, "only parts of the two shapes are tested against each other");
  vc_assert(vc_implies(r, g_yes), "shapes are reported to intersect only on a common point");
  bool all = g_a_in_b & g_b_in_a;
  // a segment has no inside: its start in the other shape and the edges decide
  if (g_a.n == 2) all = g_a_in_b;
  if (g_b.n == 2) all = g_b_in_a;
  for (int i = 0; i < g_a.n; ++i) for (int j = 0; j < g_b.n; ++j) {
    if (g_a.n == 2 && i == 1) continue;
    if (g_b.n == 2 && j == 1) continue;
    all &= g_asked[i][j];
  }
  vc_assert(vc_implies(!r, all | apart(g_a, g_b)), "shapes are reported apart only when no point of one is in the other and no edges meet");
#else
  Convex p, q;
  for (int k = 0; k < 2; ++k) { Convex& c = k ? q : p; const Poly& o = k ? g_b : g_a; c.n = o.n; for (int i = 0; i < o.n; ++i) { c.x[i] = o.c[i].x; c.y[i] = o.c[i].y; } }
  double gap = separation(p, q);
  vc_assert(!(gap > 0.1 && r), "shapes that are apart do not intersect");
  vc_assert(!(gap < -0.1 && !r), "shapes that overlap intersect");
#endif
}
// One of the shapes is a point.
template <class A, class B> static void point_(A a, B b, bool swapped) {
  make(a); make(b);
  vc_assume(dot(a));
  g_a = poly(a); g_b = poly(b);
  for (auto& row : g_asked) for (bool& x : row) x = false;
  g_a_in_b = g_b_in_a = g_yes = g_no = g_wrong = false;
  bool r = swapped ? IntersectsInternal(b, a) : IntersectsInternal(a, b);
#ifdef VC_SYMBOLIC
  vc_assert(!g_wrong, "only the point and the shape are tested against each other");
  vc_assert(vc_implies(r, g_yes), "a point-like shape intersects only shapes that contain the point");
  vc_assert(vc_implies(!r, g_no), "a point-like shape intersects every shape that contains the point");
#else
  Convex p, q;
  for (int k = 0; k < 2; ++k) { Convex& c = k ? q : p; const Poly& o = k ? g_b : g_a; c.n = o.n; for (int i = 0; i < o.n; ++i) { c.x[i] = o.c[i].x; c.y[i] = o.c[i].y; } }
  double gap = separation(p, q);
  vc_assert(!(gap > 0.1 && r), "shapes that are apart do not intersect");
  vc_assert(!(gap < -0.1 && !r), "shapes that overlap intersect");
#endif
}
template <class A, class B> static void point(A a, B b) { point_(a, b, vc_split(vc_bool("swapped"))); }
static Quad unit() { return Quad::FromCenterDimensionsAndRotation({0, 0}, 1, 1, Angle::Radians(0)); }
static Rect urect() { return Rect::FromTwoPoints({0, 0}, {1, 1}); }
#define R urect()
#define Q unit()
VC_PROOF(fp, segment_triangle) { run(Segment{}, Triangle{}); }
VC_PROOF(fp, segment_rect) { run(Segment{}, R); }
VC_PROOF(fp, segment_quad) { run(Segment{}, Q); }
VC_PROOF(fp, triangle_segment) { run(Triangle{}, Segment{}); }
VC_PROOF(fp, triangle_triangle) { run(Triangle{}, Triangle{}); }
VC_PROOF(fp, triangle_rect) { run(Triangle{}, R); }
VC_PROOF(fp, triangle_quad) { run(Triangle{}, Q); }
VC_PROOF(fp, rect_segment) { run(R, Segment{}); }
VC_PROOF(fp, rect_triangle) { run(R, Triangle{}); }
VC_PROOF(fp, rect_quad) { run(R, Q); }
VC_PROOF(fp, quad_segment) { run(Q, Segment{}); }
VC_PROOF(fp, quad_triangle) { run(Q, Triangle{}); }
VC_PROOF(fp, quad_rect) { run(Q, R); }
VC_PROOF(fp, quad_quad) { run(Q, Q); }
// ---- a point-like first or second shape
VC_PROOF(fp, dot_segment_triangle) { point(Segment{}, Triangle{}); }
VC_PROOF(fp, dot_segment_rect) { point(Segment{}, R); }
VC_PROOF(fp, dot_segment_quad) { point(Segment{}, Q); }
VC_PROOF(fp, dot_triangle_segment) { point(Triangle{}, Segment{}); }
VC_PROOF(fp, dot_triangle_triangle) { point(Triangle{}, Triangle{}); }
VC_PROOF(fp, dot_triangle_rect) { point(Triangle{}, R); }
VC_PROOF(fp, dot_triangle_quad) { point(Triangle{}, Q); }
VC_PROOF(fp, dot_rect_segment) { point(R, Segment{}); }
VC_PROOF(fp, dot_rect_triangle) { point(R, Triangle{}); }
VC_PROOF(fp, dot_rect_quad) { point(R, Q); }
VC_PROOF(fp, dot_quad_segment) { point(Q, Segment{}); }
VC_PROOF(fp, dot_quad_triangle) { point(Q, Triangle{}); }
VC_PROOF(fp, dot_quad_rect) { point(Q, R); }
VC_PROOF(fp, dot_quad_quad) { point(Q, Q); }
// ---- rectangles: exactly
VC_PROOF(fp, rects) {
  Rect a = R, b = R;
  make(a); make(b);
  bool meet = (a.XMin() <= b.XMax()) & (b.XMin() <= a.XMax()) & (a.YMin() <= b.YMax()) & (b.YMin() <= a.YMax());
  vc_assert(IntersectsInternal(a, b) == meet, "rectangles intersect exactly when their ranges overlap");
}
