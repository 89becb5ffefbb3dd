// Two shapes by their corners, and how to recognise parts of them in the arguments of a callee.
#ifndef VC_POLYS_H_
#define VC_POLYS_H_
#include "geo.h"
#ifndef VC_SYMBOLIC
#include "convex.h"
#endif
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/intersects_internal.h"
enum Kind { kPoint, kSegment, kTriangle, kRect, kQuad };
struct Poly { Point c[4]; Point mid; int n, edges; Kind kind; bool dot; };
static Poly g[2];
static bool g_meet, g_wrong;
static bool ident(Point p, Point q) { return vc_identical(p.x, q.x) && vc_identical(p.y, q.y); }
static bool same(Point p, Point q) { return vc_same(p.x, q.x) & vc_same(p.y, q.y); }
static Point end_of(const Poly& q, int i) { return q.c[i + 1 == q.n ? 0 : i + 1]; }
static bool edge_ident(const Segment& s, const Poly& q, int i) { return (ident(s.start, q.c[i]) && ident(s.end, end_of(q, i))) || (ident(s.start, end_of(q, i)) && ident(s.end, q.c[i])); }
static bool edge_same(const Segment& s, const Poly& q, int i) { return (same(s.start, q.c[i]) & same(s.end, end_of(q, i))) | (same(s.start, end_of(q, i)) & same(s.end, q.c[i])); }
static Poly poly(Point p) { return {{p, p, p, p}, p, 1, 1, kPoint, true}; }
static Poly poly(const Segment& s) { return {{s.start, s.end}, s.start, 2, 1, kSegment, false}; }
static Poly poly(const Triangle& t) { return {{t.p0, t.p1, t.p2}, t.p0, 3, 3, kTriangle, false}; }
static Poly poly(const Rect& r) { auto c = r.Corners(); return {{c[0], c[1], c[2], c[3]}, r.Center(), 4, 4, kRect, false}; }
static Poly poly(const Quad& r) { auto c = r.Corners(); return {{c[0], c[1], c[2], c[3]}, r.Center(), 4, 4, kQuad, false}; }
static bool ident_of(const Poly& x, const Poly& q) {
  if (x.kind != q.kind) return false;
  for (int i = 0; i < q.n; ++i) if (!ident(x.c[i], q.c[i])) return false;
  return true;
}
static bool is(const Poly& x, const Poly& q) {
  if (x.kind == kPoint) return q.dot && ident(x.c[0], q.mid) ? true : q.dot & same(x.c[0], q.c[0]);
  if (x.kind != q.kind) return false;
  if (ident_of(x, q)) return true;
  bool r = true;
  for (int i = 0; i < q.n; ++i) r &= same(x.c[i], q.c[i]);
  return r;
}
template <class A, class B> static bool meet(const A& a, const B& b) {
  Poly x = poly(a), y = poly(b);
  // the two shapes themselves: the answer; parts of them: no when the shapes are apart
  bool whole = (is(x, g[0]) & is(y, g[1])) | (is(x, g[1]) & is(y, g[0]));
  return g_meet & (whole | vc_bool("part"));
}
extern "C" bool vc_meet_pt(Point a, const Triangle& b) { return meet(a, b); }
extern "C" bool vc_meet_pr(Point a, const Rect& b) { return meet(a, b); }
extern "C" bool vc_meet_pq(Point a, const Quad& b) { return meet(a, b); }
extern "C" bool vc_meet_st(const Segment& a, const Triangle& b) { return meet(a, b); }
extern "C" bool vc_meet_sr(const Segment& a, const Rect& b) { return meet(a, b); }
extern "C" bool vc_meet_sq(const Segment& a, const Quad& b) { return meet(a, b); }
extern "C" bool vc_meet_tt(const Triangle& a, const Triangle& b) { return meet(a, b); }
extern "C" bool vc_meet_tr(const Triangle& a, const Rect& b) { return meet(a, b); }
extern "C" bool vc_meet_tq(const Triangle& a, const Quad& b) { return meet(a, b); }
extern "C" bool vc_meet_rr(const Rect& a, const Rect& b) { return meet(a, b); }
extern "C" bool vc_meet_rq(const Rect& a, const Quad& b) { return meet(a, b); }
extern "C" bool vc_meet_qq(const Quad& a, const Quad& b) { return meet(a, b); }

static bool dot(const Segment& s) { return (s.start.x == s.end.x) & (s.start.y == s.end.y); }
static bool dot(const Triangle& t) { return (t.p0.x == t.p1.x) & (t.p0.y == t.p1.y) & (t.p0.x == t.p2.x) & (t.p0.y == t.p2.y); }
template <class R> static bool dot(const R& r) { return (r.Width() == 0) & (r.Height() == 0); }
// Coordinates are such that nothing overflows.
static float co(const char* n) { float f = vc_float(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); vc_assume((f > -1e15f) & (f < 1e15f)); return f; }
static Point cpt() { float x = co("px"); float y = co("py"); return {x, y}; }
static void make(Segment& s) { s.start = cpt(); s.end = cpt(); }
static void make(Triangle& t) { t.p0 = cpt(); t.p1 = cpt(); t.p2 = cpt(); }
static void make(Rect& r) { Point a = cpt(), b = cpt(); vc_assume((a.x <= b.x) & (a.y <= b.y)); r = Rect::FromTwoPoints(a, b); }
static void make(Quad& r) { Point k = cpt(); float w = co("w"), h = co("h"), s = vc_float("shear"), t = vc_float("r"); vc_assume((w >= 0) & (s > -100) & (s < 100) & ((vc_mode() != 3) | ((s > -4) & (s < 4))) & (t >= 0) & (t < 6.2831854f)); r = Quad::FromCenterDimensionsRotationAndShear(k, w, h, Angle::Radians(t), s); }
static float length() { if (vc_mode() == 3) return 0; float f = vc_float("d"); vc_assume(f >= 0); return f; }
#ifndef VC_SYMBOLIC
static void concrete(float r) {
  Convex p, q;
  for (int k = 0; k < 2; ++k) { Convex& c = k ? q : p; const Poly& o = k ? g[1] : g[0]; c.n = o.n; for (int i = 0; i < o.n; ++i) { c.x[i] = o.c[i].x; c.y[i] = o.c[i].y; } }
  double gap = separation(p, q);
  vc_assert(!(gap < -0.1 && r > 0), "shapes that overlap are at distance 0");
  vc_assert(!(gap > 0.1 && std::fabs(r - convex_distance(p, q)) > 0.1), "shapes that are apart are at the distance of their closest points");
  vc_assert(!(r < 0), "distances are not negative");
}
#endif
static Quad unit() { return Quad::FromCenterDimensionsAndRotation({0, 0}, 1, 1, Angle::Radians(0)); }
static Rect urect() { return Rect::FromTwoPoints({0, 0}, {1, 1}); }
#endif
