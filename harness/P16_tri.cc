// Triangle containment and segment intersection.
// VC-SOURCES: ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-OPT: nomerge=1 joinequal=1
// VC-STUB: ^std::pair<float, float> std::minmax<float>\(std::initializer_list<float>\) => vc_minmax
// VC-ASSUME: std::minmax returns the least and the greatest of its arguments
#include "geo.h"
#include "ink/geometry/internal/algorithms.h"
extern "C" std::pair<float, float> vc_minmax(std::initializer_list<float> l) {
  float lo = *l.begin(), hi = lo;
  for (float f : l) { lo = fmn(lo, f); hi = fmx(hi, f); }
  return {lo, hi};
}
using namespace ink::geometry_internal;
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static const float S = 1e6f;
static Segment mseg() { Point p = mpt(); Point q = mpt(); return {p, q}; }
static Triangle mtri() { Point a = mpt(); Point b = mpt(); Point c = mpt(); return {a, b, c}; }
static float area2(Point a, Point b, Point c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }

// Every convex combination of the corners is contained.
VC_PROOF(real, contains_combinations) {
  Triangle t = mtri();
  float a = mod("a"), b = mod("b"), c = 1 - a - b;
  if (vc_mode() == 3) vc_assume((a > 0.01f) & (b > 0.01f) & (c > 0.01f) & (std::fabs(area2(t.p0, t.p1, t.p2)) > 1));
  vc_assume((a >= 0) & (b >= 0) & (c >= 0));
  Point p{a * t.p0.x + b * t.p1.x + c * t.p2.x, a * t.p0.y + b * t.p1.y + c * t.p2.y};
  vc_assert(t.Contains(p), "a triangle contains every convex combination of its corners");
}
// A weighted mean, with weights of one sign, is not above the greatest of its terms.
static bool hull_pre(float D, const float* w, const float* h, float hp) {
  return (D != 0) & (w[0] + w[1] + w[2] == D) & (w[0] * h[0] + w[1] * h[1] + w[2] * h[2] == D * hp) & (D > 0 ? (w[0] >= 0) & (w[1] >= 0) & (w[2] >= 0) : (w[0] <= 0) & (w[1] <= 0) & (w[2] <= 0));
}
static bool hull_post(const float* h, float hp) { return hp <= fmx(fmx(h[0], h[1]), h[2]); }
VC_PROOF(real, hull_lemma) {
  float D = mod("D"), w[3] = {mod("w"), mod("w"), mod("w")}, h[3] = {mod("h"), mod("h"), mod("h")}, hp = mod("hp");
  vc_assume(hull_pre(D, w, h, hp) & (vc_mode() != 3));  // algebra only
  float top = fmx(fmx(h[0], h[1]), h[2]), s = vc_split(D > 0) ? 1 : -1, q[3];
  for (int i = 0; i < 3; ++i) {
    float e = vc_ghost(s * w[i]), d = vc_ghost(h[i] - top);
    vc_assert((e >= 0) & (d <= 0), "lemma: each corner is on the inner side and not above the top");
    q[i] = vc_ghost(e * d);
    vc_assert(q[i] <= 0, "lemma: each corner is weighted below the top");
  }
  float all = vc_ghost(s * D * (hp - top));
  vc_assert(all == q[0] + q[1] + q[2], "lemma: combination with signs");
  vc_assert(all <= 0, "lemma: sign");
  vc_assert(hull_post(h, hp), "a weighted mean is not above the greatest of its terms");
}
// A contained point is not separated from the corners by any line.
VC_PROOF(real, contained_not_separated) {
  Triangle t = mtri();
  Point p = mpt();
  float u = mod("u"), v = mod("v");
  float D = area2(t.p0, t.p1, t.p2);
  float tol = vc_mode() == 3 ? 1 : 0;
  vc_assume(vc_mode() == 3 ? std::fabs(D) > 1 : D != 0);
  bool in = t.Contains(p);
  if (in) {
    auto height = [&](Point q) { return u * q.x + v * q.y; };
    float w[3] = {area2(t.p1, t.p2, p), area2(t.p2, t.p0, p), area2(t.p0, t.p1, p)}, h[3] = {height(t.p0), height(t.p1), height(t.p2)}, hp = height(p);
    vc_assert(vc_near(w[0] + w[1] + w[2], D, S), "lemma: areas add up");
    vc_assert(vc_near(w[0] * h[0] + w[1] * h[1] + w[2] * h[2], D * hp, S * 1e3f), "lemma: combination");
    vc_assert(D > 0 ? (w[0] >= -tol) & (w[1] >= -tol) & (w[2] >= -tol) : (w[0] <= tol) & (w[1] <= tol) & (w[2] <= tol), "a contained point is on the inner side of every edge");
    if (vc_mode() == 1) {
      vc_assert(hull_pre(D, w, h, hp), "lemma: a contained point is a weighted mean of the corners");
      vc_assume(hull_post(h, hp));  // proved by hull_lemma
    }
    vc_assert(hp <= fmx(fmx(h[0], h[1]), h[2]) + tol, "a contained point lies in the convex hull of the corners");
  }
}
// Collapsed triangles: corners at 0, k and m along a line through the first corner.
VC_PROOF(real, contains_collapsed) {
  Point o = mpt(), p = mpt();
  float ux = mod("ux"), uy = mod("uy"), k = mod("k"), m = mod("m");
  if (vc_mode() == 3) vc_assume((o.x == 0) & (o.y == 0) & (ux == 4) & (uy == 0) & (k * 4 == std::floor(k * 4)) & (m * 4 == std::floor(m * 4)));
  vc_assume((ux != 0) | (uy != 0));
  Triangle t{o, {o.x + k * ux, o.y + k * uy}, {o.x + m * ux, o.y + m * uy}};
  float lo = fmn(fmn(k, m), 0), hi = fmx(fmx(k, m), 0);
  float dx = p.x - o.x, dy = p.y - o.y, along = dx * ux + dy * uy, n = ux * ux + uy * uy;
  bool on = dx * uy == dy * ux;
  bool in = t.Contains(p);
  vc_assert(vc_implies(in, on), "a collapsed triangle contains only points of its line");
  vc_assert(vc_implies(on, in == ((along >= lo * n) & (along <= hi * n))), "a collapsed triangle contains exactly the points between its corners");
}

// ---- intersections
static bool proper(const Segment& s) { return (s.start.x != s.end.x) | (s.start.y != s.end.y); }
static void native_general(const Segment& a, const Segment& b) {
  if (vc_mode() == 3) vc_assume(std::fabs(Vec::Determinant(a.Vector(), b.Vector())) > 1);
}
VC_PROOF(real, line_intersection) {
  Segment a = mseg(), b = mseg();
  native_general(a, b);
  auto r = UniqueLineIntersectionRatio(a, b);
  float det = a.Vector().x * b.Vector().y - a.Vector().y * b.Vector().x;
  vc_assert(r.has_value() == (det != 0), "two lines have a unique intersection exactly when they are not parallel");
  if (r.has_value()) {
    Point p = a.Lerp(r->first), q = b.Lerp(r->second);
    vc_assert(vc_near((p.x - q.x) * det, 0, S * 1e3f) & vc_near((p.y - q.y) * det, 0, S * 1e3f), "lemma: both lines pass through the intersection, scaled");
    vc_assert(vc_near(p.x, q.x, S) & vc_near(p.y, q.y, S), "both lines pass through their intersection");
  }
}
// Crossing segments: the one common point is found.
VC_PROOF(real, crossing_complete) {
  Segment a = mseg(), b = mseg();
  float t = mod("t"), s = mod("s");
  vc_assume((t >= 0) & (t <= 1) & (s >= 0) & (s <= 1));
  native_general(a, b);
  Vec u = a.Vector(), v = b.Vector();
  float det = u.x * v.y - u.y * v.x;
  vc_assume(det != 0);
  if (vc_mode() == 3) vc_assume((t > 0.01f) & (t < 0.99f) & (s > 0.01f) & (s < 0.99f));
  // place the second segment so that the points at t and s coincide
  b.start.x = a.start.x + t * u.x - s * v.x;
  b.start.y = a.start.y + t * u.y - s * v.y;
  b.end.x = b.start.x + v.x;
  b.end.y = b.start.y + v.y;
  auto r = SegmentIntersectionRatio(a, b);
  vc_assert(r.has_value(), "segments with a common point intersect");
  if (r.has_value()) vc_assert(vc_near(r->first, t, S) & vc_near(r->second, s, S), "the ratios are those of the common point");
}
VC_PROOF(real, crossing_sound) {
  Segment a = mseg(), b = mseg();
  native_general(a, b);
  float det = a.Vector().x * b.Vector().y - a.Vector().y * b.Vector().x;
  vc_assume(det != 0);
  auto r = SegmentIntersectionRatio(a, b);
  auto p = SegmentIntersection(a, b);
  vc_assert(r.has_value() == p.has_value(), "the intersection point exists exactly when the ratios do");
  if (r.has_value()) {
    vc_assert((0 <= r->first) & (r->first <= 1) & (0 <= r->second) & (r->second <= 1), "the ratios lie in [0,1]");
    Point q = a.Lerp(r->first), o = b.Lerp(r->second);
    vc_assert(vc_near(q.x, p->x, S) & vc_near(q.y, p->y, S), "the intersection point is the one at the ratio");
    vc_assert(vc_near((q.x - o.x) * det, 0, S * 1e3f) & vc_near((q.y - o.y) * det, 0, S * 1e3f), "lemma: scaled");
    vc_assert(vc_near(q.x, o.x, S) & vc_near(q.y, o.y, S), "both ratios name the common point");
  }
}
// Parallel segments on different lines never intersect.
VC_PROOF(real, parallel_apart) {
  Segment a = mseg();
  float k = mod("k"), wx = mod("wx"), wy = mod("wy");
  Vec u = a.Vector();
  vc_assume(vc_mode() == 3 ? (std::fabs(u.x * wy - u.y * wx) > 1) & ((k == 0) | (std::fabs(k) > 0.1f)) & (std::fabs(k) < 3) & false : u.x * wy - u.y * wx != 0);
  Segment b{{a.start.x + wx, a.start.y + wy}, {a.start.x + wx + k * u.x, a.start.y + wy + k * u.y}};
  vc_assert(!SegmentIntersectionRatio(a, b).has_value(), "segments on different parallel lines do not intersect");
  vc_assert(!SegmentIntersectionRatio(b, a).has_value(), "segments on different parallel lines do not intersect (swapped)");
  vc_assert(!SegmentIntersection(a, b).has_value(), "segments on different parallel lines have no intersection point");
}
// Segments on one line: the ends of the second are at k and m along the first.
VC_PROOF(real, collinear) {
  Segment a = mseg();
  float k = mod("k"), m = mod("m");
  Vec u = a.Vector();
  vc_assume((u.x != 0) | (u.y != 0));
  if (vc_mode() == 3) {  // rounding breaks collinearity: keep to dyadic numbers on an axis
    vc_assume((a.start.x == 0) & (u.x == 4) & (u.y == 0) & (k * 4 == std::floor(k * 4)) & (m * 4 == std::floor(m * 4)) & ((std::fabs(k - m) == 1) | (k == m)));
  }
  Segment b{{a.start.x + k * u.x, a.start.y + k * u.y}, {a.start.x + m * u.x, a.start.y + m * u.y}};
  float lo = fmn(k, m), hi = fmx(k, m);
  bool meet = (lo <= 1) & (hi >= 0);
  bool point = vc_split(k == m);
  auto r = SegmentIntersectionRatio(a, b);
  vc_assert(r.has_value() == meet, "segments on one line intersect exactly when they overlap");
  if (r.has_value()) {
    vc_assert(vc_near(r->first, fmx(lo, 0), S), "overlapping segments first meet at the start of the overlap");
    if (point) vc_assert(r->second == 0, "the ratio along a point-like segment is 0");
    // along b: position x on a is (x-k)/(m-k) on b
    if (!point) vc_assert(vc_near(r->second * (m - k), m > k ? fmx(k, 0) - k : fmn(k, 1) - k, S), "the ratio along the second segment is that of the first common point");
  }
  auto q = SegmentIntersectionRatio(b, a);
  vc_assert(q.has_value() == meet, "intersection does not depend on the order");
  if (q.has_value() & r.has_value()) vc_assert(vc_near(q->first, r->second, S) & vc_near(q->second, r->first, S), "swapping the segments swaps the ratios");
}
VC_PROOF(real, point_like) {
  Point p = mpt(), q = mpt();
  auto r = SegmentIntersectionRatio({p, p}, {q, q});
  bool same = (p.x == q.x) & (p.y == q.y);
  vc_assert(r.has_value() == same, "point-like segments intersect exactly when they are equal");
  if (r.has_value()) vc_assert((r->first == 0) & (r->second == 0), "the ratios along point-like segments are 0");
}
