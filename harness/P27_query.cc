// Partitioned shapes: queries.
// VC-SOURCES: ink/geometry/internal/static_rtree.cc ink/geometry/internal/intersects_internal.cc ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/affine_transform.cc ink/geometry/internal/algorithms.cc ink/geometry/mesh.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/partitioned_mesh.cc
// VC-OPT: max_iter=200
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Point, ink::Triangle const&\) => vc_hit_point
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Triangle const&\) => vc_hit_segment
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Triangle const&, ink::Triangle const&\) => vc_hit_triangle
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Quad const&, ink::Triangle const&\) => vc_hit_quad
// VC-BOUND: shapes of three triangles in two meshes (and of 21 in two), with arbitrary points and segments, and given triangles, rectangles and quads
// VC-ASSUME: tests of single pairs of shapes by their contract (any answer; P17)
#include "pmesh.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/envelope.h"
// Right triangles at (x, y) with legs (w, h); areas 1, 2 (listed clockwise) and 5.
static const float kTri[3][4] = {{0, 0, 2, 1}, {4, 1, 2, 2}, {-3, 2, 5, 2}};
static bool g_hit[3], g_hit2[3][3];
static Point g_want[4];
static bool g_want_set, g_pairs;
static Vec g_move;
static int g_seen[3], g_calls, g_stop, g_late, g_wrong;
static bool g_stopped;
static Point corner(int i, int k) { bool wide = k == (i == 1 ? 2 : 1), tall = k == (i == 1 ? 1 : 2); return {kTri[i][0] + (wide ? kTri[i][2] : 0), kTri[i][1] + (tall ? kTri[i][3] : 0)}; }
static int which(const Triangle& t) { for (int i = 0; i < 3; ++i) if ((t.p0 == corner(i, 0)) & (t.p1 == corner(i, 1)) & (t.p2 == corner(i, 2))) return i; return -1; }
static bool hit(const Triangle& t) {
  int i = which(t);
  g_wrong += i < 0;
  return i >= 0 && g_hit[i];
}
extern "C" bool vc_hit_point(Point q, const Triangle& t) { if (g_want_set) g_wrong += !(q == g_want[0]); return hit(t); }
extern "C" bool vc_hit_segment(const Segment& q, const Triangle& t) { if (g_want_set) g_wrong += !(((q.start == g_want[0]) & (q.end == g_want[1])) | ((q.start == g_want[1]) & (q.end == g_want[0]))); return hit(t); }
extern "C" bool vc_hit_triangle(const Triangle& q, const Triangle& t) {
  if (g_pairs) {
    // q is a triangle of the first shape (moved back), t one of the queried shape
    Triangle moved{q.p0 + g_move, q.p1 + g_move, q.p2 + g_move};
    int i = which(moved), j = which(t);
    g_wrong += (i < 0) | (j < 0);
    return i >= 0 && j >= 0 && g_hit2[i][j];
  }
  if (g_want_set) g_wrong += !((q.p0 == g_want[0]) & (q.p1 == g_want[1]) & (q.p2 == g_want[2]));
  return hit(t);
}
extern "C" bool vc_hit_quad(const Quad& q, const Triangle& t) {
  std::array<Point, 4> c = q.Corners();
  if (g_want_set) g_wrong += !((c[0] == g_want[0]) & (c[1] == g_want[1]) & (c[2] == g_want[2]) & (c[3] == g_want[3]));
  return hit(t);
}
static Shape shape() {
  float x[6], y[6];
  for (int k = 0; k < 2; ++k) for (int v = 0; v < 3; ++v) {
    x[k * 3 + v] = corner(k, v).x;
    y[k * 3 + v] = corner(k, v).y;
  }
  const uint32_t index[6] = {0, 1, 2, 3, 4, 5};
  float x2[3] = {-3, 2, -3}, y2[3] = {2, 2, 4};
  std::vector<Mesh> ms;
  ms.push_back(mesh_of(plain(), x, y, 6, index, 6));
  ms.push_back(mesh_of(plain(), x2, y2, 3, index, 3));
  return *Shape::FromMeshes(absl::MakeConstSpan(ms));
}
static bool overlap(int i, float x0, float y0, float x1, float y1) {
  return (kTri[i][0] <= x1) & (x0 <= kTri[i][0] + kTri[i][2]) & (kTri[i][1] <= y1) & (y0 <= kTri[i][1] + kTri[i][3]);
}
static void start() {
  for (int i = 0; i < 3; ++i) g_hit[i] = vc_bool("hit"), g_seen[i] = 0;
  g_calls = g_stop = g_late = g_wrong = 0;
  g_stopped = g_want_set = g_pairs = false;
}
static Shape::FlowControl visit(Shape::TriangleIndexPair p) {
  int i = p.mesh_index * 2 + p.triangle_index;
  g_late += g_stopped;
  g_wrong += !((p.mesh_index == 0) & (p.triangle_index < 2)) & !((p.mesh_index == 1) & (p.triangle_index == 0));
  for (int k = 0; k < 3; ++k) g_seen[k] += k == i;
  ++g_calls;
  g_stopped = g_stopped | (g_calls == g_stop);
  return g_calls == g_stop ? Shape::FlowControl::kBreak : Shape::FlowControl::kContinue;
}
static void expect(float x0, float y0, float x1, float y1) {
  vc_assert(g_wrong == 0, "the query is tested against triangles of the shape");
  int n = 0;
  for (int i = 0; i < 3; ++i) {
    bool in = g_hit[i] & overlap(i, x0, y0, x1, y1);
    n += in;
    vc_assert(!(g_seen[i] > 0) | in, "visited triangles intersect the query");
    vc_assert(g_seen[i] <= 1, "no triangle is visited twice");
    if (g_stop == 0) vc_assert(!in | (g_seen[i] == 1), "every intersected triangle is visited");
  }
  vc_assert(g_late == 0, "nothing is visited after the visitor breaks");
  if (g_stop > 0) vc_assert(g_calls == (n < g_stop ? n : g_stop), "visits end only when the visitor breaks");
}
VC_PROOF(fp, point) {
  start();
  Point q = finpt();
  g_want[0] = q; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(q.x, q.y, q.x, q.y);
}
VC_PROOF(fp, point_stopping) {
  start();
  Point q = {vc_bool("x") ? -1.0f : 4.5f, 2};
  g_stop = 1;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(q.x, q.y, q.x, q.y);
}
VC_PROOF(fp, point_transformed) {
  start();
  AffineTransform t(2, 0, 3, 0, 1, -1);
  Point q = {vc_bool("x") ? -2.0f : 1.0f, 2};
  g_want[0] = {2 * q.x + 3, q.y - 1}; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit, t);
  expect(g_want[0].x, g_want[0].y, g_want[0].x, g_want[0].y);
}
VC_PROOF(fp, segment) {
  start();
  Point a = finpt(); Point b = finpt(); Segment q{a, b};
  g_want[0] = q.start; g_want[1] = q.end; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(fmn(q.start.x, q.end.x), fmn(q.start.y, q.end.y), fmx(q.start.x, q.end.x), fmx(q.start.y, q.end.y));
}
VC_PROOF(fp, no_meshes) {
  start();
  Point p = finpt();
  float threshold = fin("threshold");
  for (int k = 0; k < 3; ++k) {
    Shape s = k == 0 ? Shape() : Shape::WithEmptyGroups(k - 1);
    s.InitializeSpatialIndex();
    s.VisitIntersectedTriangles(p, visit);
    s.VisitIntersectedTriangles(Segment{p, p}, visit);
    s.VisitIntersectedTriangles(Triangle{p, p, p}, visit);
    s.VisitIntersectedTriangles(Rect::FromTwoPoints({0, 0}, {1, 1}), visit);
    s.VisitIntersectedTriangles(Quad::FromCenterAndDimensions({0, 0}, 1, 1), visit);
    s.VisitIntersectedTriangles(shape(), visit);
    s.VisitIntersectedTriangles(s, visit);
    vc_assert(g_calls == 0, "an empty shape has no triangles to visit");
    vc_assert(s.Coverage(Triangle{p, p, p}) == 0 && s.Coverage(Rect::FromTwoPoints({0, 0}, {1, 1})) == 0 && s.Coverage(Quad::FromCenterAndDimensions({0, 0}, 1, 1)) == 0 && s.Coverage(shape()) == 0, "nothing of an empty shape is covered");
    vc_assert(!s.CoverageIsGreaterThan(Triangle{p, p, p}, threshold) && !s.CoverageIsGreaterThan(Rect::FromTwoPoints({0, 0}, {1, 1}), threshold) && !s.CoverageIsGreaterThan(Quad::FromCenterAndDimensions({0, 0}, 1, 1), threshold) && !s.CoverageIsGreaterThan(shape(), threshold), "the coverage of an empty shape exceeds nothing");
    shape().VisitIntersectedTriangles(s, visit);
    vc_assert(g_calls == 0, "an empty shape intersects nothing");
  }
}
VC_PROOF(fp, triangle) {
  start();
  Triangle q{{-1, 0}, {5, 0}, {1, 1}};
  g_want[0] = q.p0; g_want[1] = q.p1; g_want[2] = q.p2; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(-1, 0, 5, 1);
}
VC_PROOF(fp, triangle_transformed) {
  start();
  Triangle q{{0, 0}, {0, 4}, {1, 1}};
  AffineTransform t(0, -1, 3, 1, 0, 4);
  g_want[0] = {3, 4}; g_want[1] = {-1, 4}; g_want[2] = {2, 5}; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit, t);
  expect(-1, 4, 3, 5);
}
VC_PROOF(fp, rectangle) {
  start();
  Rect q = Rect::FromTwoPoints({-4, -1}, {2.5, 3});
  g_want[0] = {-4, -1}; g_want[1] = {2.5, -1}; g_want[2] = {2.5, 3}; g_want[3] = {-4, 3}; g_want_set = true;
  g_stop = vc_i32("stop");
  vc_assume(g_stop >= 0);
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(-4, -1, 2.5, 3);
}
VC_PROOF(fp, rectangle_transformed) {
  start();
  Rect q = Rect::FromTwoPoints({0, 0}, {2, 1});
  AffineTransform t(0.5, 0, 4, 0, 2, 3.5);
  g_want[0] = {4, 3.5}; g_want[1] = {5, 3.5}; g_want[2] = {5, 5.5}; g_want[3] = {4, 5.5}; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit, t);
  expect(4, 3.5, 5, 5.5);
}
VC_PROOF(fp, quadrilateral) {
  start();
  Quad q = Quad::FromCenterAndDimensions({1, 0.5}, 4, 1);
  g_want[0] = {-1, 0}; g_want[1] = {3, 0}; g_want[2] = {3, 1}; g_want[3] = {-1, 1}; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit);
  expect(-1, 0, 3, 1);
}
VC_PROOF(fp, quadrilateral_transformed) {
  start();
  Quad q = Quad::FromCenterAndDimensions({1, 0.5}, 4, 1);
  AffineTransform t(1, 0, 2, 0, 1, 3);
  g_want[0] = {1, 3}; g_want[1] = {5, 3}; g_want[2] = {5, 4}; g_want[3] = {1, 4}; g_want_set = true;
  Shape s = shape();
  s.VisitIntersectedTriangles(q, visit, t);
  expect(1, 3, 5, 4);
}
// The coverage is the share of the area (8 in all) of the intersected triangles.
static float share(float x0, float y0, float x1, float y1) {
  static const float kArea[3] = {1, 2, 5};
  float a = 0;
  for (int i = 0; i < 3; ++i) a += g_hit[i] & overlap(i, x0, y0, x1, y1) ? kArea[i] : 0;
  return a / 8;
}
template <typename Q> static void coverage(const Q& q, const AffineTransform& t, float x0, float y0, float x1, float y1) {
  start();
  Shape s = shape();
  float c = s.Coverage(q, t);
  vc_assert(g_wrong == 0, "the query is tested against triangles of the shape");
  vc_assert(c == share(x0, y0, x1, y1), "the coverage is the share of the area of the intersected triangles");
  vc_assert(s.Coverage(q, t) == c, "the coverage stays the same");
  float threshold = vc_float("threshold");
  bool more = s.CoverageIsGreaterThan(q, threshold, t);
  vc_assert(more == (c > threshold), "coverage comparisons agree with the coverage");
}
VC_PROOF(fp, coverage_triangle) { coverage(Triangle{{-1, 0}, {5, 0}, {1, 3}}, {}, -1, 0, 5, 3); }
VC_PROOF(fp, coverage_triangle_transformed) { coverage(Triangle{{0, 0}, {0, 4}, {1, 1}}, AffineTransform(0, -1, 3, 1, 0, 4), -1, 4, 3, 5); }
VC_PROOF(fp, coverage_rectangle) { coverage(Rect::FromTwoPoints({-4, -1}, {4.5, 3}), {}, -4, -1, 4.5, 3); }
VC_PROOF(fp, coverage_quadrilateral) { coverage(Quad::FromCenterAndDimensions({1, 0.5}, 4, 1), AffineTransform(1, 0, 2, 0, 1, 3), 1, 3, 5, 4); }
// Shapes against shapes: the query is a copy of the shape, moved.
static void shapes(Vec move, bool with_coverage) {
  start();
  g_pairs = true;
  g_move = move;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g_hit2[i][j] = vc_bool("pair");
  Shape s = shape(), q = shape();
  AffineTransform t(1, 0, move.x, 0, 1, move.y);
  // the bounds of the moved query
  float x0 = -3 + move.x, y0 = 0 + move.y, x1 = 6 + move.x, y1 = 4 + move.y;
  for (int i = 0; i < 3; ++i) {
    bool any = false;
    for (int j = 0; j < 3; ++j) any = any | (g_hit2[i][j] & overlap(i, kTri[j][0] + move.x, kTri[j][1] + move.y, kTri[j][0] + kTri[j][2] + move.x, kTri[j][1] + kTri[j][3] + move.y));
    g_hit[i] = any;
  }
  if (with_coverage) {
    float threshold = vc_float("threshold");
    vc_assert(s.Coverage(q, t) == share(x0, y0, x1, y1), "the coverage is the share of the area of the intersected triangles");
    vc_assert(s.CoverageIsGreaterThan(q, threshold, t) == (share(x0, y0, x1, y1) > threshold), "coverage comparisons agree with the coverage");
    return;
  }
  s.VisitIntersectedTriangles(q, visit, t);
  expect(x0, y0, x1, y1);
}
VC_PROOF(fp, shape_in_place) { shapes({0, 0}, false); }
VC_PROOF(fp, shape_moved) { shapes({-2, 1}, false); }
VC_PROOF(fp, shape_away) { shapes({4, -3}, false); }
VC_PROOF(fp, coverage_shape) { shapes({-2, 1}, true); }
// A query that its transform collapses to a segment.
static void collapsed(const AffineTransform& t, Point a, Point b) {
  start();
  g_want[0] = a; g_want[1] = b; g_want_set = true;
  Shape s = shape(), q = shape();
  s.VisitIntersectedTriangles(q, visit, t);
  expect(fmn(a.x, b.x), fmn(a.y, b.y), fmx(a.x, b.x), fmx(a.y, b.y));
}
VC_PROOF(fp, collapsed_horizontally) { collapsed(AffineTransform(1, 0, 0, 0, 0, 1), {-3, 1}, {6, 1}); }
VC_PROOF(fp, collapsed_vertically) { collapsed(AffineTransform(0, 0, 5, 0, 2, 0), {5, 0}, {5, 8}); }
VC_PROOF(fp, collapsed_to_a_point) { collapsed(AffineTransform(0, 0, 5, 0, 0, 2), {5, 2}, {5, 2}); }
VC_PROOF(fp, collapsed_along_the_diagonal) { collapsed(AffineTransform(4, -9, 0, 0, 0, 1), {-48, 1}, {15, 1}); }
