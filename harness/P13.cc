// Envelope: representation invariant (empty, or an ordered rectangle) and exact growth.
// VC-SOURCES: ink/geometry/envelope.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/quad.cc ink/geometry/angle.cc
// VC-STUB: ink::Quad::Corners => quad_corners_stub
// VC-BOUND: adding a range of points is proved for up to 3 points; all other additions for all values and states
#include "geo.h"
#include <vector>
#include "ink/geometry/envelope.h"
static Point g_corners[4];
#ifdef VC_SYMBOLIC
// Quad::Corners may return any four points here; its own contract is property P15.
extern "C" __attribute__((used)) void quad_corners_stub(std::array<Point, 4>* out, const Quad*) {
  for (int i = 0; i < 4; ++i) (*out)[i] = g_corners[i];
}
#endif
static Envelope any() {
  Envelope e;
  if (vc_bool("nonempty")) e.Add(numrect());
  return e;
}
struct Box { bool some; float x0, y0, x1, y1; };
static Box box(const Envelope& e) {
  if (e.IsEmpty()) return {false, 0, 0, 0, 0};
  const Rect& r = *e.AsRect();
  return {true, r.XMin(), r.YMin(), r.XMax(), r.YMax()};
}
static Box grow(Box b, Point p) {
  if (!b.some) return {true, p.x, p.y, p.x, p.y};
  return {true, fmn(b.x0, p.x), fmn(b.y0, p.y), fmx(b.x1, p.x), fmx(b.y1, p.y)};
}
static void same(const Envelope& e, Box b, const char* what) {
  Box a = box(e);
  vc_assert((a.some == b.some) & (a.x0 == b.x0) & (a.y0 == b.y0) & (a.x1 == b.x1) & (a.y1 == b.y1), what);
  vc_assert(e.AsRect().has_value() == !e.IsEmpty(), "IsEmpty agrees with AsRect");
}
VC_PROOF(fp, empty) {
  Envelope e;
  vc_assert(e.IsEmpty() & !e.AsRect().has_value(), "a new envelope is empty");
  Envelope f = any(); f.Reset();
  vc_assert(f.IsEmpty() & !f.AsRect().has_value(), "Reset empties the envelope");
}
VC_PROOF(fp, add_point) {
  Envelope e = any(); Point p = numpt(); Box b = grow(box(e), p);
  e.Add(p); same(e, b, "adding a point grows to the exact bounds");
  Box c = box(e); e.Add(p); same(e, c, "adding the same point again changes nothing");
  same(Envelope(p), grow(Box{}, p), "envelope of a point");
}
VC_PROOF(fp, add_segment) {
  Envelope e = any(); Point p = numpt(), q = numpt(); Box b = grow(grow(box(e), p), q);
  e.Add(Segment{p, q}); same(e, b, "adding a segment grows to the exact bounds");
  same(Envelope(Segment{p, q}), grow(grow(Box{}, p), q), "envelope of a segment");
}
VC_PROOF(fp, add_triangle) {
  Envelope e = any(); Point p = numpt(), q = numpt(), r = numpt(); Box b = grow(grow(grow(box(e), p), q), r);
  e.Add(Triangle{p, q, r}); same(e, b, "adding a triangle grows to the exact bounds");
}
VC_PROOF(fp, new_triangle) {
  Point p = numpt(), q = numpt(), r = numpt();
  same(Envelope(Triangle{p, q, r}), grow(grow(grow(Box{}, p), q), r), "envelope of a triangle");
}
VC_PROOF(fp, add_rect) {
  Envelope e = any(); Rect r = numrect();
  Box b = grow(grow(box(e), {r.XMin(), r.YMin()}), {r.XMax(), r.YMax()});
  e.Add(r); same(e, b, "adding a rectangle grows to the exact bounds");
  Box c = box(e); e.Add(r); same(e, c, "adding the same rectangle again changes nothing");
  same(Envelope(r), Box{true, r.XMin(), r.YMin(), r.XMax(), r.YMax()}, "envelope of a rectangle");
}
VC_PROOF(fp, add_quad) {
  Envelope e = any();
  Quad q = Quad::FromCenterAndDimensions({0, 0}, 1, 1);
  for (Point& p : g_corners) p = numpt();
  Box b = box(e);
  if (vc_mode() == 3) { auto c = q.Corners(); for (int i = 0; i < 4; ++i) g_corners[i] = c[i]; }
  for (Point p : g_corners) b = grow(b, p);
  e.Add(q); same(e, b, "adding a quad grows to the exact bounds of its corners");
}
VC_PROOF(fp, new_quad) {
  Quad q = Quad::FromCenterAndDimensions({0, 0}, 1, 1);
  for (Point& p : g_corners) p = numpt();
  if (vc_mode() == 3) { auto c = q.Corners(); for (int i = 0; i < 4; ++i) g_corners[i] = c[i]; }
  Box b{};
  for (Point p : g_corners) b = grow(b, p);
  same(Envelope(q), b, "envelope of a quad");
}
VC_PROOF(fp, add_envelope) {
  Envelope e = any(), f = any(); Box a = box(e), b = box(f);
  Box w = a;
  if (b.some) { w = grow(grow(a, {b.x0, b.y0}), {b.x1, b.y1}); }
  e.Add(f); same(e, w, "adding an envelope grows to the exact bounds; an empty one adds nothing");
}
VC_PROOF(fp, add_range) {
  Envelope e = any(); Box b = box(e);
  std::vector<Point> v; int n = vc_choose("n", 0, 3);
  for (int i = 0; i < n; ++i) v.push_back(numpt());
  Envelope g(v), h(v.begin(), v.end());
  Box z{};
  for (int i = 0; i < n; ++i) { b = grow(b, v[i]); z = grow(z, v[i]); }
  e.Add(v); same(e, b, "adding a container adds every element");
  same(g, z, "envelope of a container"); same(h, z, "envelope of an iterator range");
}
