// Distance of points and segments.
// VC-SOURCES: ink/geometry/distance.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-OPT: nomerge=1 joinequal=1
#include "geo.h"
#include "ink/geometry/distance.h"
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static Segment mseg() { Point p = mpt(); Point q = mpt(); return {p, q}; }
static const float S = 1e6f;
static float sq(Point p, Point q) { return (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y); }
static bool le(float a, float b) { return vc_mode() == 3 ? a <= b + 0.1f : a <= b; }

VC_PROOF(real, point_point) {
  Point p = mpt(), q = mpt();
  float d = Distance(p, q);
  vc_assert(d >= 0, "the distance of points is not negative");
  vc_assert(vc_near(d * d, sq(p, q), S), "the distance of points is the Euclidean one");
  vc_assert(Distance(q, p) == d, "the distance of points is symmetric");
}
// The distance of a point from a segment is attained, and no point of the segment is closer.
VC_PROOF(real, point_segment_least) {
  Point p = mpt();
  Segment s = mseg();
  float t = mod("t");
  vc_assume((t >= 0) & (t <= 1));
  float d = Distance(p, s), ux = s.end.x - s.start.x, uy = s.end.y - s.start.y;
  vc_assert(Distance(s, p) == d, "the distance of a point and a segment is symmetric");
  vc_assert(d >= 0, "the distance of a point and a segment is not negative");
  if (vc_mode() == 1) {
    // ghost: the square of the distance to the point at t, as a parabola in t
    float n = vc_ghost(ux * ux + uy * uy), m = vc_ghost((p.x - s.start.x) * ux + (p.y - s.start.y) * uy), e = vc_ghost(sq(p, s.start));
    vc_assert(sq(p, {s.start.x + t * ux, s.start.y + t * uy}) == e - 2 * t * m + t * t * n, "lemma: parabola");
    vc_assert(vc_implies(m <= 0, d * d == e), "lemma: before the start");
    vc_assert(vc_implies((m >= n) & (n > 0), d * d == e - 2 * m + n), "lemma: after the end");
    vc_assert(vc_implies((m > 0) & (m < n), d * d * n == e * n - m * m), "lemma: in the middle");
    float D = vc_ghost(d * d);
    vc_assert(vc_implies((m > 0) & (m < n), (D - (e - 2 * t * m + t * t * n)) * n == -(m - t * n) * (m - t * n)), "lemma: difference in the middle");
    vc_assert(D <= e - 2 * t * m + t * t * n, "lemma: no closer point");
  }
  vc_assert(le(d * d, sq(p, {s.start.x + t * ux, s.start.y + t * uy})), "no point of a segment is closer than its distance");
}
VC_PROOF(real, point_segment_attained) {
  Point p = mpt();
  Segment s = mseg();
  float d = Distance(p, s), ux = s.end.x - s.start.x, uy = s.end.y - s.start.y, n = ux * ux + uy * uy, m = (p.x - s.start.x) * ux + (p.y - s.start.y) * uy;
  if (vc_mode() == 3) vc_assume((n == 0) | (n > 1));
  float t = n == 0 ? 0 : m <= 0 ? 0 : m >= n ? 1 : m / n;
  vc_assert((t >= 0) & (t <= 1), "lemma: on the segment");
  vc_assert(vc_near(d * d, sq(p, {s.start.x + t * ux, s.start.y + t * uy}), S), "some point of the segment is at the distance");
}
