// Intersection of points and segments: exactly the existence of a common point.
// VC-SOURCES: ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-OPT: nomerge=1 joinequal=1
#include "geo.h"
#include "ink/geometry/internal/intersects_internal.h"
using namespace ink::geometry_internal;
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static Segment mseg() { Point p = mpt(); Point q = mpt(); return {p, q}; }
static const float S = 1e6f;
static bool hits(const Segment& a, const Segment& b) {
  bool r = IntersectsInternal(a, b);
  vc_assert(IntersectsInternal(b, a) == r, "the intersection of segments does not depend on their order");
  return r;
}

VC_PROOF(fp, point_point) {
  Point p = numpt(), q = numpt();
  vc_assert(IntersectsInternal(p, q) == ((p.x == q.x) & (p.y == q.y)), "points intersect exactly when they are equal");
}
VC_PROOF(real, point_segment_sound) {
  Point p = mpt();
  Segment s = mseg();
  if (vc_mode() == 3) vc_assume((s.start.y == s.end.y) & (s.start.x == 0) & (s.end.x == 8) & (p.x * 16 == std::floor(p.x * 16)));
  bool in = IntersectsInternal(p, s);
  vc_assert(IntersectsInternal(s, p) == in, "a point and a segment intersect in either order");
  float ux = s.end.x - s.start.x, uy = s.end.y - s.start.y, dx = p.x - s.start.x, dy = p.y - s.start.y;
  float along = dx * ux + dy * uy, n = ux * ux + uy * uy;
  bool on = dx * uy == dy * ux;
  vc_assert(vc_implies((n == 0) & in, (dx == 0) & (dy == 0)), "a point-like segment meets only its own point");
  vc_assert(vc_implies(in, on & (along >= 0) & (along <= n)), "a point meeting a segment lies on it");
}
VC_PROOF(real, point_segment_complete) {
  Segment s = mseg();
  float t = mod("t");
  vc_assume((t >= 0) & (t <= 1));
  if (vc_mode() == 3) vc_assume((s.start.x == 0) & (s.start.y == s.end.y) & (s.end.x == 8) & (t * 16 == std::floor(t * 16)));
  Point p{s.start.x + t * (s.end.x - s.start.x), s.start.y + t * (s.end.y - s.start.y)};
  vc_assert(IntersectsInternal(p, s), "a segment meets every one of its points");
  vc_assert(IntersectsInternal(s, p), "a segment meets every one of its points (swapped)");
}
// Not parallel: the common point of the lines decides.
// A point of a segment lies in the bounding box of the segment.
static void in_box(const Segment& s, float x, float y) {
  if (vc_mode() != 1) return;
  vc_assert((fmn(s.start.x, s.end.x) <= x) & (x <= fmx(s.start.x, s.end.x)), "lemma: a point of a segment lies in its range of x");
  vc_assert((fmn(s.start.y, s.end.y) <= y) & (y <= fmx(s.start.y, s.end.y)), "lemma: a point of a segment lies in its range of y");
}
VC_PROOF(real, crossing_complete) {
  Point p = mpt();
  Vec u = Vec{mod("ux"), mod("uy")}, v = Vec{mod("vx"), mod("vy")};
  float t = mod("t"), s = mod("s");
  vc_assume((t >= 0) & (t <= 1) & (s >= 0) & (s <= 1));
  float det = u.x * v.y - u.y * v.x;
  vc_assume(vc_mode() == 3 ? std::fabs(det) > 1 : det != 0);
  if (vc_mode() == 3) vc_assume((t > 0.01f) & (t < 0.99f) & (s > 0.01f) & (s < 0.99f));
  // the first segment passes through p at t, the second at s
  Segment a{{p.x - t * u.x, p.y - t * u.y}, {p.x + (1 - t) * u.x, p.y + (1 - t) * u.y}};
  Segment b{{p.x - s * v.x, p.y - s * v.y}, {p.x + (1 - s) * v.x, p.y + (1 - s) * v.y}};
  in_box(a, p.x, p.y);
  in_box(b, p.x, p.y);
  vc_assert(hits(a, b), "segments with a common point intersect");
}
VC_PROOF(real, crossing_sound) {
  Segment a = mseg();
  Vec v = Vec{mod("vx"), mod("vy")};
  float t = mod("t"), s = mod("s");
  Vec u = a.Vector();
  float det = u.x * v.y - u.y * v.x;
  vc_assume(vc_mode() == 3 ? std::fabs(det) > 1 : det != 0);
  // the lines meet at t along the first and s along the second segment
  bool common = (t >= 0) & (t <= 1) & (s >= 0) & (s <= 1);
  if (vc_mode() == 3) vc_assume((std::fabs(t) > 0.01f) & (std::fabs(t - 1) > 0.01f) & (std::fabs(s) > 0.01f) & (std::fabs(s - 1) > 0.01f));
  Point q{a.start.x + t * u.x - s * v.x, a.start.y + t * u.y - s * v.y};
  Segment b{q, {q.x + v.x, q.y + v.y}};
  vc_assert(vc_implies(hits(a, b), common), "segments of crossing lines intersect only in the common point of the lines");
}
// Parallel segments on different lines never intersect.
VC_PROOF(real, parallel_apart) {
  Segment a = mseg();
  float k = mod("k"), wx = mod("wx"), wy = mod("wy");
  Vec u = a.Vector();
  vc_assume(vc_mode() == 3 ? (a.start.x == 0) & (u.x == 8) & (u.y == 0) & (a.start.y == 0) & (wy > 1) & (std::fabs(k * 16) == std::floor(std::fabs(k) * 16)) & (wx * 16 == std::floor(wx * 16)) : u.x * wy - u.y * wx != 0);
  Segment b{{a.start.x + wx, a.start.y + wy}, {a.start.x + wx + k * u.x, a.start.y + wy + k * u.y}};
  vc_assert(!hits(a, b), "segments on different parallel lines do not intersect");
}
static void collinear(bool meet, int order) {
  Segment a = mseg();
  float k = mod("k"), m = mod("m");
  Vec u = a.Vector();
  vc_assume((u.x != 0) | (u.y != 0));
  if (vc_mode() == 3) vc_assume((a.start.x == 0) & (a.start.y == 0) & (u.x == 8) & (u.y == 0) & (k * 16 == std::floor(k * 16)) & (m * 16 == std::floor(m * 16)));
  vc_assume(order < 0 ? k < m : order > 0 ? k > m : k == m);
  Segment b{{a.start.x + k * u.x, a.start.y + k * u.y}, {a.start.x + m * u.x, a.start.y + m * u.y}};
  float lo = fmn(k, m), hi = fmx(k, m);
  vc_assume(((lo <= 1) & (hi >= 0)) == meet);
  if (meet) {
    float t = fmx(lo, 0);
    vc_assert((t >= 0) & (t <= 1) & (t >= lo) & (t <= hi), "lemma: the first common point is on both");
    in_box(a, a.start.x + t * u.x, a.start.y + t * u.y);
    in_box(b, a.start.x + t * u.x, a.start.y + t * u.y);
  }
  if (vc_mode() == 1 && order != 0) {
    vc_assert((u.x * u.x + u.y * u.y > 0) & ((m - k) * u.x * ((m - k) * u.x) + (m - k) * u.y * ((m - k) * u.y) > 0), "lemma: neither is a point");
    auto p1 = b.Project(a.start), p2 = b.Project(a.end), q1 = a.Project(b.start), q2 = a.Project(b.end);
    if (p1.has_value() && p2.has_value() && q1.has_value() && q2.has_value()) {
      vc_assert((*p1 * (m - k) == -k) & (*p2 * (m - k) == 1 - k), "lemma: the ends of the first along the second");
      vc_assert((*q1 == k) & (*q2 == m), "lemma: the ends of the second along the first");
      if (order < 0) vc_assert(((*p1 >= 0) == (k <= 0)) & ((*p1 <= 1) == (m >= 0)) & ((*p2 >= 0) == (k <= 1)) & ((*p2 <= 1) == (m >= 1)), "lemma: where the ends of the first are");
      else vc_assert(((*p1 >= 0) == (k >= 0)) & ((*p1 <= 1) == (m <= 0)) & ((*p2 >= 0) == (k >= 1)) & ((*p2 <= 1) == (m <= 1)), "lemma: where the ends of the first are");
    }
  }
  vc_assert(hits(a, b) == meet, "segments on one line intersect exactly when they overlap");
}
VC_PROOF(real, collinear_meet_same_way) { collinear(true, -1); }
VC_PROOF(real, collinear_meet_opposite) { collinear(true, 1); }
VC_PROOF(real, collinear_meet_point) { collinear(true, 0); }
VC_PROOF(real, collinear_apart_same_way) { collinear(false, -1); }
VC_PROOF(real, collinear_apart_opposite) { collinear(false, 1); }
VC_PROOF(real, collinear_apart_point) { collinear(false, 0); }
VC_PROOF(real, point_like) {
  Point p = mpt(), q = mpt();
  vc_assert(IntersectsInternal(Segment{p, p}, Segment{q, q}) == ((p.x == q.x) & (p.y == q.y)), "point-like segments intersect exactly when they are equal");
}

// ---- single precision, every finite input
static bool apart(float a0, float a1, float b0, float b1) { return fmx(a0, a1) < fmn(b0, b1); }
static bool boxes_apart(const Segment& a, const Segment& b) {
  return apart(a.start.x, a.end.x, b.start.x, b.end.x) | apart(b.start.x, b.end.x, a.start.x, a.end.x) | apart(a.start.y, a.end.y, b.start.y, b.end.y) | apart(b.start.y, b.end.y, a.start.y, a.end.y);
}
VC_PROOF(fp, segments_apart) {
  Segment a{finpt(), finpt()}, b{finpt(), finpt()};
  vc_assume(boxes_apart(a, b));
  vc_assert(!IntersectsInternal(a, b), "segments whose bounding boxes are disjoint do not intersect");
}
VC_PROOF(fp, point_segment_apart) {
  Point p = finpt();
  Segment b{finpt(), finpt()};
  vc_assume(boxes_apart({p, p}, b));
  vc_assert(!IntersectsInternal(p, b), "a point outside the bounding box of a segment does not intersect it");
}
VC_PROOF(fp, segment_self) {
  Segment a{finpt(), finpt()};
  vc_assert(IntersectsInternal(a, a), "a segment intersects itself");
  vc_assert(IntersectsInternal(a, Segment{a.end, a.start}), "a segment intersects its reverse");
}
VC_PROOF(fp, shared_end) {
  Point p = finpt(), q = finpt(), r = finpt();
  Segment s{p, q};
  bool f = vc_bool("flip"), g = vc_bool("flip");
  Segment a = f ? Segment{p, q} : Segment{q, p}, b = g ? Segment{p, r} : Segment{r, p};
  vc_assert(IntersectsInternal(a, b), "segments with a common end intersect");
}
