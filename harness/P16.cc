// Segments, triangles and interpolation.
// VC-SOURCES: ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
#include "geo.h"
#include "ink/geometry/internal/algorithms.h"
using namespace ink::geometry_internal;
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static const float S = 1e6f;

// ---- interpolation of numbers
VC_PROOF(real, lerp) {
  float a = mod("a"), b = mod("b"), t = mod("t");
  vc_assert(vc_near(Lerp(a, b, t), (1 - t) * a + t * b, S), "Lerp is the affine combination");
  Vec v = Lerp(Vec{a, mod("c")}, Vec{b, mod("d")}, t);
  vc_assert(vc_near(v.x, (1 - t) * a + t * b, S), "Lerp of vectors (x)");
  Color::RgbaFloat p{mod("r"), mod("g"), mod("b"), mod("a")}, q{mod("r"), mod("g"), mod("b"), mod("a")}, c = Lerp(p, q, t);
  vc_assert(vc_near(c.r, (1 - t) * p.r + t * q.r, S) & vc_near(c.g, (1 - t) * p.g + t * q.g, S) & vc_near(c.b, (1 - t) * p.b + t * q.b, S) & vc_near(c.a, (1 - t) * p.a + t * q.a, S), "Lerp of colours");
  vc_assert(vc_near(Lerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians(), (1 - t) * a + t * b, S), "Lerp of angles");
}
VC_PROOF(real, lerp_vec) {
  Vec p{mod("px"), mod("py")}, q{mod("qx"), mod("qy")};
  float t = mod("t");
  Vec v = Lerp(p, q, t);
  vc_assert(vc_near(v.x, (1 - t) * p.x + t * q.x, S) & vc_near(v.y, (1 - t) * p.y + t * q.y, S), "Lerp of vectors");
  Point a{p.x, p.y}, b{q.x, q.y}, r = Lerp(a, b, t);
  vc_assert(vc_near(r.x, v.x, S) & vc_near(r.y, v.y, S), "Lerp of points");
}
VC_PROOF(fp, lerp_ends) {
  float a = num("a"), b = num("b"), t = fin("t");
  vc_assume(vc_finite(a) & vc_finite(b) & vc_finite(b - a));
  vc_assert(Lerp(a, b, 0) == a, "Lerp starts at the first value exactly");
  vc_assert(Lerp(a, a, t) == a, "Lerp between equal values is that value exactly");
  vc_assert(Lerp(Vec{a, b}, Vec{b, a}, 0).x == a, "Lerp of vectors starts at the first vector (x)");
  vc_assert(Lerp(Vec{a, b}, Vec{b, a}, 0).y == b, "Lerp of vectors starts at the first vector (y)");
}
VC_PROOF(fp, lerp_color_ends) {
  Color::RgbaFloat p{fin("r"), fin("g"), fin("b"), fin("a")}, q{fin("r"), fin("g"), fin("b"), fin("a")};
  auto eq = [](const Color::RgbaFloat& x, const Color::RgbaFloat& y) { return (x.r == y.r) & (x.g == y.g) & (x.b == y.b) & (x.a == y.a); };
  vc_assert(eq(Lerp(p, q, 0), p), "Lerp of colours starts at the first colour exactly");
  vc_assert(eq(Lerp(p, q, 1), q), "Lerp of colours ends at the second colour exactly");
  Angle a = Angle::Radians(p.r), b = Angle::Radians(q.r);
  vc_assert((Lerp(a, b, 0) == a) & (Lerp(a, b, 1) == b), "Lerp of angles reaches both ends exactly");
}
VC_PROOF(real, lerp_monotone) {
  float a = mod("a"), b = mod("b"), t = mod("t"), u = mod("u");
  vc_assume((0 <= t) & (t <= u) & (u <= 1) & (a <= b));
  float tol = vc_mode() == 3 ? 1e-4f : 0;
  vc_assert((a <= Lerp(a, b, t) + tol) & (Lerp(a, b, u) <= b + tol), "Lerp stays between its ends");
  vc_assert(Lerp(a, b, t) <= Lerp(a, b, u) + tol, "Lerp is monotonic");
  vc_assert(Lerp(b, a, t) + tol >= Lerp(b, a, u), "Lerp is monotonic (descending)");
}
VC_PROOF(fp, inverse_lerp_range) {
  float a = fin("a"), b = fin("b"), v = fin("v");
  vc_assume(vc_finite(b - a));
  float t = InverseLerp(a, b, v);
  vc_assert(vc_implies((a <= v) & (v <= b), (t >= 0) & (t <= 1)), "InverseLerp of a value between the ends lies in [0,1]");
  vc_assert(vc_implies((b <= v) & (v <= a), (t >= 0) & (t <= 1)), "InverseLerp of a value between the ends lies in [0,1] (descending)");
}
VC_PROOF(fp, inverse_lerp_ends) {
  float a = fin("a"), b = fin("b"), v = num("v");
  vc_assert(InverseLerp(a, a, v) == 0, "InverseLerp over an empty interval is 0");
  vc_assert(InverseLerp(a, b, a) == 0, "InverseLerp of the first end is 0");
  vc_assert(vc_implies((a != b) & vc_finite(b - a), InverseLerp(a, b, b) == 1), "InverseLerp of the second end is 1");
}
VC_PROOF(real, inverse_lerp) {
  float a = mod("a"), b = mod("b"), t = mod("t");
  vc_assume(vc_mode() == 3 ? std::fabs(a - b) > 0.1f : a != b);
  vc_assert(vc_near(InverseLerp(a, b, Lerp(a, b, t)), t, S), "InverseLerp inverts Lerp");
  vc_assert(vc_near(Lerp(a, b, InverseLerp(a, b, t)), t, S), "Lerp inverts InverseLerp");
  float c = mod("c"), d = mod("d");
  vc_assert(vc_near(LinearMap(t, {a, b}, {c, d}) * (b - a), c * (b - a) + (d - c) * (t - a), 100 * S), "LinearMap is the affine map of the ranges");
}
VC_PROOF(fp, linear_map_start) {
  float a = fin("a"), b = fin("b"), c = fin("c"), d = fin("d"), v = fin("v");
  vc_assume(vc_finite(d - c));
  vc_assert(LinearMap(a, {a, b}, {c, d}) == c, "LinearMap maps the first end to the first end exactly");
  vc_assert(LinearMap(v, {a, a}, {c, d}) == c, "LinearMap of an empty range is the first end");
}

// ---- segments
static Segment fseg() { Point p = finpt(); Point q = finpt(); return {p, q}; }
static Segment mseg() { Point p = mpt(); Point q = mpt(); return {p, q}; }
VC_PROOF(fp, segment_ends) {
  Segment s = fseg();
  vc_assert((s.Lerp(0) == s.start) & (s.Lerp(1) == s.end), "segment interpolation is exact at both ends");
  Point m = s.Midpoint();
  vc_assert(vc_finite(m.x) & vc_finite(m.y), "the midpoint of a finite segment is finite");
  vc_assert((m.x == s.start.x * 0.5f + s.end.x * 0.5f) & (m.y == s.start.y * 0.5f + s.end.y * 0.5f), "the midpoint is the mean of the ends");
  Vec v = s.Vector();
  vc_assert((v.x == s.end.x - s.start.x) & (v.y == s.end.y - s.start.y), "the segment vector leads from start to end");
}
VC_PROOF(fp, segment_equality) {
  Segment s{numpt(), numpt()}, t{numpt(), numpt()};
  bool same = (s.start.x == t.start.x) & (s.start.y == t.start.y) & (s.end.x == t.end.x) & (s.end.y == t.end.y);
  vc_assert(((s == t) == same) & ((s != t) == !same), "segments are equal exactly when both ends are");
  Triangle a{s.start, s.end, t.start}, b{numpt(), numpt(), numpt()};
  bool teq = (a.p0 == b.p0) & (a.p1 == b.p1) & (a.p2 == b.p2);
  vc_assert(((a == b) == teq) & ((a != b) == !teq), "triangles are equal exactly when all corners are");
}
VC_PROOF(real, segment_lerp) {
  Segment s = mseg();
  float t = mod("t");
  Point p = s.Lerp(t);
  vc_assert(vc_near(p.x, s.start.x + t * (s.end.x - s.start.x), S) & vc_near(p.y, s.start.y + t * (s.end.y - s.start.y), S), "segment interpolation is linear");
  Vec v = s.Vector();
  float l = s.Length();
  vc_assert(vc_near(l * l, v.x * v.x + v.y * v.y, S) & (l >= 0), "the length is that of the vector");
}
VC_PROOF(real, project) {
  Segment s = mseg();
  float t = mod("t"), x = s.end.x - s.start.x, y = s.end.y - s.start.y;
  if (vc_mode() == 3) vc_assume((x * x + y * y > 0.1f) | (s.start == s.end));
  Point p = mpt();
  auto r = s.Project(p);
  vc_assert(r.has_value() == ((x != 0) | (y != 0)), "projection exists exactly for proper segments");
  if (r.has_value()) {
    Point q = s.Lerp(*r);
    vc_assert(vc_near(*r * (x * x + y * y), (p.x - s.start.x) * x + (p.y - s.start.y) * y, S), "lemma: ratio");
    vc_assert(vc_near((p.x - q.x) * x + (p.y - q.y) * y, 0, S), "the projection is the foot of the perpendicular");
    auto back = s.Project(s.Lerp(t));
    vc_assert(back.has_value() && vc_near(*back, t, S), "projection inverts interpolation");
    auto d = VectorFromPointToSegmentProjection(p, s);
    vc_assert(d.has_value(), "the vector to the projection exists");
    vc_assert(vc_near(p.x + d->x, q.x, S) & vc_near(p.y + d->y, q.y, S), "the vector to the projection leads there");
  } else {
    vc_assert(!VectorFromPointToSegmentProjection(p, s).has_value(), "a point-like segment has no projection vector");
  }
}
VC_PROOF(fp, project_degenerate) {
  Point p = numpt(), q = numpt();
  vc_assert(!Segment{p, p}.Project(q).has_value(), "a point-like segment has no projection");
}

// ---- triangles
static Triangle mtri() { Point a = mpt(); Point b = mpt(); Point c = mpt(); return {a, b, c}; }
static float area2(Point a, Point b, Point c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
VC_PROOF(fp, triangle_edges) {
  Triangle t{numpt(), numpt(), numpt()};
  vc_assert((t.GetEdge(0) == Segment{t.p0, t.p1}) & (t.GetEdge(1) == Segment{t.p1, t.p2}) & (t.GetEdge(2) == Segment{t.p2, t.p0}), "edges join consecutive corners");
}
VC_PROOF(real, triangle_area) {
  Triangle t = mtri();
  vc_assert(vc_near(t.SignedArea() * 2, area2(t.p0, t.p1, t.p2), S), "the signed area is half the determinant");
}
VC_PROOF(real, barycentric) {
  Triangle t = mtri();
  Point p = mpt();
  float d = area2(t.p0, t.p1, t.p2);
  if (vc_mode() == 3) vc_assume((std::fabs(d) > 1) | (t.p0 == t.p1) | (t.p1 == t.p2) | (t.p0 == t.p2));
  auto b = GetBarycentricCoordinates(t, p);
  vc_assert(b.has_value() == (d != 0), "barycentric coordinates exist exactly for proper triangles");
  if (b.has_value()) {
    vc_assert(vc_near((*b)[0] * d, area2(t.p1, t.p2, p), S) & vc_near((*b)[1] * d, area2(t.p2, t.p0, p), S), "barycentric coordinates are ratios of areas");
    vc_assert(vc_near((*b)[0] + (*b)[1] + (*b)[2], 1, S), "barycentric coordinates add up to 1");
    vc_assert(vc_near((*b)[2] * d, area2(t.p0, t.p1, p), S), "third barycentric coordinate");
    vc_assert(vc_near((*b)[0] * t.p0.x + (*b)[1] * t.p1.x + (*b)[2] * t.p2.x, p.x, S), "barycentric coordinates reproduce the point (x)");
    vc_assert(vc_near((*b)[0] * t.p0.y + (*b)[1] * t.p1.y + (*b)[2] * t.p2.y, p.y, S), "barycentric coordinates reproduce the point (y)");
  }
}
