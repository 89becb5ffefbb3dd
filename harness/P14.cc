// AffineTransform: 2x3 matrix algebra over the reals.
// VC-SOURCES: ink/geometry/affine_transform.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/quad.cc ink/geometry/angle.cc ink/geometry/triangle.cc
#include "geo.h"
#include "ink/geometry/affine_transform.h"
// natively keep the numbers moderate: the claims are about real arithmetic
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static AffineTransform any() {
  float a = mod("a"), b = mod("b"), c = mod("c"), d = mod("d"), e = mod("e"), f = mod("f");
  return AffineTransform(a, b, c, d, e, f);
}
static bool eq(const AffineTransform& t, float a, float b, float c, float d, float e, float f) {
  return (t.A() == a) & (t.B() == b) & (t.C() == c) & (t.D() == d) & (t.E() == e) & (t.F() == f);
}
static bool at(Point p, float x, float y, float s) { return vc_near(p.x, x, s) & vc_near(p.y, y, s); }
static const float S = 1e5f;  // native rounding scale for values below 100 multiplied twice
VC_PROOF(real, accessors) {
  float a = fin("a"), b = fin("b"), c = fin("c"), d = fin("d"), e = fin("e"), f = fin("f");
  vc_assert(eq(AffineTransform(a, b, c, d, e, f), a, b, c, d, e, f), "constructor and accessors");
  vc_assert(eq(AffineTransform(), 1, 0, 0, 0, 1, 0), "default is the identity");
  vc_assert(eq(AffineTransform::Identity(), 1, 0, 0, 0, 1, 0), "Identity");
}
VC_PROOF(real, apply_point) {
  AffineTransform t = any(); Point p = mpt();
  vc_assert(at(t.Apply(p), t.A() * p.x + t.B() * p.y + t.C(), t.D() * p.x + t.E() * p.y + t.F(), S), "Apply(point) is the matrix product");
}
VC_PROOF(real, factories) {
  Point p = mpt(); float s = mod("s"), q = mod("q"), r = mod("r"); Vec v{mod("vx"), mod("vy")};
  vc_assert(at(AffineTransform::Identity().Apply(p), p.x, p.y, S), "Identity fixes every point");
  vc_assert(at(AffineTransform::Translate(v).Apply(p), p.x + v.x, p.y + v.y, S), "Translate");
  vc_assert(at(AffineTransform::Scale(s).Apply(p), s * p.x, s * p.y, S), "Scale");
  vc_assert(at(AffineTransform::Scale(s, q).Apply(p), s * p.x, q * p.y, S), "Scale x y");
  vc_assert(at(AffineTransform::ScaleX(s).Apply(p), s * p.x, p.y, S), "ScaleX");
  vc_assert(at(AffineTransform::ScaleY(s).Apply(p), p.x, s * p.y, S), "ScaleY");
  vc_assert(at(AffineTransform::ShearX(s).Apply(p), p.x + s * p.y, p.y, S), "ShearX");
  vc_assert(at(AffineTransform::ShearY(s).Apply(p), p.x, p.y + s * p.x, S), "ShearY");
  float c = std::cos(r), n = std::sin(r);
  vc_assert(at(AffineTransform::Rotate(Angle::Radians(r)).Apply(p), c * p.x - n * p.y, n * p.x + c * p.y, S), "Rotate");
}
VC_PROOF(real, about_point) {
  Point p = mpt(), k = mpt(); float s = mod("s"), q = mod("q"), r = mod("r");
  float dx = p.x - k.x, dy = p.y - k.y;
  vc_assert(at(AffineTransform::ScaleAboutPoint(s, k).Apply(p), k.x + s * dx, k.y + s * dy, S), "ScaleAboutPoint");
  vc_assert(at(AffineTransform::ScaleAboutPoint(s, k).Apply(k), k.x, k.y, S), "ScaleAboutPoint fixes the centre");
  vc_assert(at(AffineTransform::ScaleAboutPoint(s, q, k).Apply(p), k.x + s * dx, k.y + q * dy, S), "ScaleAboutPoint x y");
  vc_assert(at(AffineTransform::ScaleAboutPoint(s, q, k).Apply(k), k.x, k.y, S), "ScaleAboutPoint x y fixes the centre");
  float c = std::cos(r), n = std::sin(r);
  vc_assert(at(AffineTransform::RotateAboutPoint(Angle::Radians(r), k).Apply(p), k.x + c * dx - n * dy, k.y + n * dx + c * dy, S), "RotateAboutPoint");
  vc_assert(at(AffineTransform::RotateAboutPoint(Angle::Radians(r), k).Apply(k), k.x, k.y, S), "RotateAboutPoint fixes the centre");
}
VC_PROOF(real, compose) {
  AffineTransform t = any(), u = any(); Point p = mpt();
  AffineTransform m = t * u;
  Point a = m.Apply(p), b = t.Apply(u.Apply(p));
  vc_assert(at(a, b.x, b.y, 1e8f), "product applies the right factor first");
}
VC_PROOF(real, inverse) {
  AffineTransform t = any(); Point p = mpt();
  float det = t.A() * t.E() - t.B() * t.D();
  auto i = t.Inverse();
  if (vc_mode() == 3) vc_assume((det == 0) | (std::fabs(det) > 1e-2f * (std::fabs(t.A() * t.E()) + std::fabs(t.B() * t.D())) & (std::fabs(det) > 1e-2f)));
  vc_assert(i.has_value() == (det != 0), "invertible exactly when the determinant is not zero");
  if (i.has_value()) {
    Point a = i->Apply(t.Apply(p)), b = t.Apply(i->Apply(p));
    float k = 1e7f * (1 + 1 / std::fabs(det));
    vc_assert(vc_near(a.x, p.x, k), "inverse after transform is the identity (x)");
    vc_assert(vc_near(a.y, p.y, k), "inverse after transform is the identity (y)");
    vc_assert(vc_near(b.x, p.x, k), "transform after inverse is the identity (x)");
    vc_assert(vc_near(b.y, p.y, k), "transform after inverse is the identity (y)");
  }
}
VC_PROOF(real, shapes) {
  AffineTransform t = any(); Point p = mpt(), q = mpt(), r = mpt();
  Segment s = t.Apply(Segment{p, q});
  vc_assert((s.start == t.Apply(p)) & (s.end == t.Apply(q)), "Apply(segment) transforms the end points");
  Triangle g = t.Apply(Triangle{p, q, r});
  vc_assert((g.p0 == t.Apply(p)) & (g.p1 == t.Apply(q)) & (g.p2 == t.Apply(r)), "Apply(triangle) transforms the corners");
}
VC_PROOF(real, find_triangle) {
  Triangle f{mpt(), mpt(), mpt()}, g{mpt(), mpt(), mpt()};
  float d = (f.p1.x - f.p0.x) * (f.p2.y - f.p0.y) - (f.p2.x - f.p0.x) * (f.p1.y - f.p0.y);
  if (vc_mode() == 3) vc_assume((std::fabs(d) > 1) & (std::fabs(f.p0.x) < 10) & (std::fabs(f.p1.x) < 10) & (std::fabs(f.p2.x) < 10) & (std::fabs(f.p0.y) < 10) & (std::fabs(f.p1.y) < 10) & (std::fabs(f.p2.y) < 10));
  auto t = AffineTransform::Find(f, g);
  vc_assert(t.has_value() == (d != 0), "Find(triangle) succeeds exactly for non-degenerate sources");
  if (t.has_value()) {
    Point a = t->Apply(f.p0), b = t->Apply(f.p1), c = t->Apply(f.p2);
    float k = vc_mode() == 3 ? 1e7f : 1;
    vc_assert(vc_near(a.x, g.p0.x, k), "Find(triangle) maps corner 0 (x)");
    vc_assert(vc_near(a.y, g.p0.y, k), "Find(triangle) maps corner 0 (y)");
    vc_assert(vc_near(b.x, g.p1.x, k), "Find(triangle) maps corner 1 (x)");
    vc_assert(vc_near(b.y, g.p1.y, k), "Find(triangle) maps corner 1 (y)");
    vc_assert(vc_near(c.x, g.p2.x, k), "Find(triangle) maps corner 2 (x)");
    vc_assert(vc_near(c.y, g.p2.y, k), "Find(triangle) maps corner 2 (y)");
  }
}
static Rect mrect() { Point a = mpt(), b = mpt(); return Rect::FromTwoPoints(a, b); }
VC_PROOF(real, find_rect) {
  Rect f = mrect(), g = mrect();
  float fw = f.XMax() - f.XMin(), fh = f.YMax() - f.YMin();
  if (vc_mode() == 3) vc_assume((fw > 1) & (fh > 1));
  auto t = AffineTransform::Find(f, g);
  vc_assert(t.has_value() == ((fw != 0) & (fh != 0)), "Find(rect) succeeds exactly for non-degenerate sources");
  if (t.has_value()) {
    auto a = f.Corners(), b = g.Corners();
    float k = vc_mode() == 3 ? 1e7f : 1;
    for (int i = 0; i < 4; ++i) {
      Point p = t->Apply(a[i]);
      vc_assert(vc_near(p.x, b[i].x, k), "Find(rect) maps every corner (x)");
      vc_assert(vc_near(p.y, b[i].y, k), "Find(rect) maps every corner (y)");
    }
  }
}
