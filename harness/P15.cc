// Quad: normalised parameters, cached semi-axes, corners, containment, join.
// VC-SOURCES: ink/geometry/quad.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc
#include "geo.h"
#include "ink/geometry/affine_transform.h"
static const float kPi = 3.14159265358979f, k2Pi = 6.28318530717959f;
static const float S = 1e5f;
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
static float ang() { float r = vc_float("r"); vc_assume((r >= 0) & (r < k2Pi)); return r; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static bool normal(const Quad& q) { return (q.Width() >= 0) & (q.Rotation().ValueInRadians() >= 0) & (q.Rotation().ValueInRadians() < k2Pi); }
static bool at(Point p, float x, float y, float s) { return vc_near(p.x, x, s) & vc_near(p.y, y, s); }
static float any_finite(const char* n) { return fin(n); }

VC_PROOF(fp, construct) {
  float x = fin("x"), y = fin("y"), w = fin("w"), h = fin("h"), r = fin("r"), k = fin("k");
  Quad q = Quad::FromCenterDimensionsRotationAndShear({x, y}, w, h, Angle::Radians(r), k);
  vc_assert(normal(q), "construction normalises width and rotation");
  vc_assert((q.Center().x == x) & (q.Center().y == y) & (q.ShearFactor() == k), "centre and shear are kept");
  vc_assert((q.Width() == std::fabs(w)) & (q.Height() == (w < 0 ? -h : h)), "a negative width flips both dimensions");
  vc_assert(vc_implies((w >= 0) & (r >= 0) & (r < k2Pi), q.Rotation().ValueInRadians() == r), "a normalised rotation is kept");
}
VC_PROOF(fp, set_width) {
  float w = fin("w"), h = fin("h"), r = ang(), v = fin("v");
  vc_assume(w >= 0);
  Quad q = Quad::FromCenterDimensionsAndRotation({0, 0}, w, h, Angle::Radians(r));
  q.SetWidth(v);
  vc_assert(normal(q), "SetWidth keeps the quad normalised");
  vc_assert((q.Width() == std::fabs(v)) & (q.Height() == (v < 0 ? -h : h)), "SetWidth with a negative width flips the height");
  vc_assert(vc_implies(v >= 0, q.Rotation().ValueInRadians() == r), "SetWidth keeps the rotation of a non-negative width");
}
VC_PROOF(fp, set_rotation) {
  float w = fin("w"), h = fin("h"), r = ang(), v = fin("v");
  vc_assume(w >= 0);
  Quad q = Quad::FromCenterDimensionsAndRotation({0, 0}, w, h, Angle::Radians(r));
  q.SetRotation(Angle::Radians(v));
  vc_assert(normal(q) & (q.Width() == w) & (q.Height() == h), "SetRotation keeps the quad normalised");
  vc_assert(vc_implies((v >= 0) & (v < k2Pi), q.Rotation().ValueInRadians() == v), "SetRotation keeps a normalised rotation");
}
VC_PROOF(real, half_turn) {
  // a negative width is the same quad turned by half a turn
  float w = mod("w"), h = mod("h"), r = ang(), k = mod("k"); Point c = mpt();
  vc_assume(w < 0);
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(r), k);
  float e = r + kPi;
  float d = q.Rotation().ValueInRadians() - e;
  vc_assert(vc_within(d, 0, 1e-5) | vc_within(d, -(double)k2Pi, 1e-5), "a negative width turns the quad by half a turn");
}
VC_PROOF(real, factories) {
  Point c = mpt(); float w = mod("w"), h = mod("h"), r = ang();
  vc_assume(w >= 0);
  Quad a = Quad::FromCenterAndDimensions(c, w, h);
  vc_assert((a.Center() == c) & (a.Width() == w) & (a.Height() == h) & (a.Rotation().ValueInRadians() == 0) & (a.ShearFactor() == 0), "FromCenterAndDimensions");
  Quad b = Quad::FromCenterDimensionsAndRotation(c, w, h, Angle::Radians(r));
  vc_assert((b.Center() == c) & (b.Width() == w) & (b.Height() == h) & (b.Rotation().ValueInRadians() == r) & (b.ShearFactor() == 0), "FromCenterDimensionsAndRotation");
  Point p = mpt(), o = mpt();
  Rect rc = Rect::FromTwoPoints(p, o);
  Quad d = Quad::FromRect(rc);
  vc_assert(at(d.Center(), rc.Center().x, rc.Center().y, S) & vc_near(d.Width(), rc.Width(), S) & vc_near(d.Height(), rc.Height(), S) & (d.Rotation().ValueInRadians() == 0) & (d.ShearFactor() == 0), "FromRect");
  auto cs = d.Corners(), rs = rc.Corners();
  for (int i = 0; i < 4; ++i) vc_assert(at(cs[i], rs[i].x, rs[i].y, S), "FromRect keeps the corners");
}
static Quad state(bool cached) {
  Point c = mpt(); float w = mod("w"), h = mod("h"), r = ang(), k = mod("k");
  vc_assume(w >= 0);
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(r), k);
  if (cached) q.SemiAxes();
  return q;
}
static void geometry(const Quad& q) {
  float c = std::cos(q.Rotation().ValueInRadians()), s = std::sin(q.Rotation().ValueInRadians());
  float w = q.Width() / 2, h = q.Height() / 2, k = q.ShearFactor();
  auto [u, v] = q.SemiAxes();
  vc_assert(vc_near(u.x, w * c, S) & vc_near(u.y, w * s, S), "first semi-axis follows width and rotation");
  vc_assert(vc_near(v.x, h * (k * c - s), S) & vc_near(v.y, h * (k * s + c), S), "second semi-axis follows height, rotation and shear");
}
VC_PROOF(real, axes) { geometry(state(vc_choose("cached", 0, 1))); }
VC_PROOF(real, axes_set_center) { Quad q = state(vc_choose("cached", 0, 1)); Point p = mpt(); q.SetCenter(p); vc_assert(q.Center() == p, "SetCenter"); geometry(q); }
VC_PROOF(real, axes_set_width) {
  Quad q = state(vc_choose("cached", 0, 1)); float v = mod("v"), h = q.Height();
  q.SetWidth(v); vc_assert((q.Width() == std::fabs(v)) & (q.Height() == (v < 0 ? -h : h)), "SetWidth"); geometry(q);
}
VC_PROOF(real, axes_set_height) { Quad q = state(vc_choose("cached", 0, 1)); float v = mod("v"); q.SetHeight(v); vc_assert(q.Height() == v, "SetHeight"); geometry(q); }
VC_PROOF(real, axes_set_rotation) { Quad q = state(vc_choose("cached", 0, 1)); float v = ang(); q.SetRotation(Angle::Radians(v)); vc_assert(q.Rotation().ValueInRadians() == v, "SetRotation"); geometry(q); }
VC_PROOF(real, axes_set_shear) { Quad q = state(vc_choose("cached", 0, 1)); float v = mod("v"); q.SetShearFactor(v); vc_assert(q.ShearFactor() == v, "SetShearFactor"); geometry(q); }
VC_PROOF(real, axes_join) { Quad q = state(vc_choose("cached", 0, 1)); Point p = mpt(); q.Join(p); geometry(q); }
VC_PROOF(real, axes_copy) { Quad q = state(vc_choose("cached", 0, 1)); Quad b = q; b.SetHeight(mod("v")); geometry(q); geometry(b); Quad d = state(true); d = q; geometry(d); }
VC_PROOF(real, corners) {
  Quad q = state(vc_choose("cached", 0, 1));
  auto [u, v] = q.SemiAxes(); Point c = q.Center();
  auto k = q.Corners();
  vc_assert(at(k[0], c.x - u.x - v.x, c.y - u.y - v.y, S) & at(k[1], c.x + u.x - v.x, c.y + u.y - v.y, S) & at(k[2], c.x + u.x + v.x, c.y + u.y + v.y, S) & at(k[3], c.x - u.x + v.x, c.y - u.y + v.y, S), "corners are centre plus and minus the semi-axes");
  int i = vc_choose("i", 0, 3);
  Segment e = q.GetEdge(i);
  vc_assert((e.start == k[i]) & (e.end == k[(i + 1) % 4]), "GetEdge joins consecutive corners");
  vc_assert(vc_near(q.SignedArea(), 4 * Vec::Determinant(u, v), S * 10), "SignedArea is the determinant of the axes");
  vc_assert(q.IsRectangular() == (q.ShearFactor() == 0), "IsRectangular");
  if (vc_split(q.Height() != 0)) vc_assert(vc_near(q.AspectRatio() * q.Height(), q.Width(), S), "AspectRatio");
}
VC_PROOF(real, contains_inside) {
  Quad q = state(false);
  auto [u, v] = q.SemiAxes(); Point c = q.Center();
  float a = vc_float("a"), b = vc_float("b");
  float lim = vc_mode() == 3 ? 0.99f : 1;
  vc_assume((a <= lim) & (a >= -lim) & (b <= lim) & (b >= -lim));
  if (vc_mode() == 3) vc_assume((q.Width() > 1) & (std::fabs(q.Height()) > 1) & (std::fabs(q.ShearFactor()) < 5));
  Point p{c.x + a * u.x + b * v.x, c.y + a * u.y + b * v.y};
  vc_assert(q.Contains(p), "a convex combination of the corners is contained");
}
VC_PROOF(real, contains_outside) {
  Quad q = state(false); Point p = mpt();
  vc_assume((q.Width() > 0) & (q.Height() != 0));
  if (vc_mode() == 3) vc_assume((q.Width() > 1) & (std::fabs(q.Height()) > 1) & (std::fabs(q.ShearFactor()) < 5));
  auto [u, v] = q.SemiAxes(); Vec d = p - q.Center();
  float c = std::cos(q.Rotation().ValueInRadians()), s = std::sin(q.Rotation().ValueInRadians());
  // coordinates of p in the (u, v) basis
  float b = (c * d.y - s * d.x) / (q.Height() / 2);
  float a = (c * d.x + s * d.y - q.ShearFactor() * (c * d.y - s * d.x)) / (q.Width() / 2);
  vc_assert(vc_near(a * u.x + b * v.x, d.x, S * 100) & vc_near(a * u.y + b * v.y, d.y, S * 100), "lemma: coordinates");
  if (vc_mode() == 3) vc_assume((std::fabs(std::fabs(a) - 1) > 1e-2f) & (std::fabs(std::fabs(b) - 1) > 1e-2f));
  vc_assert(q.Contains(p) == ((a <= 1) & (a >= -1) & (b <= 1) & (b >= -1)), "containment is decided by the coordinates along the semi-axes");
}
