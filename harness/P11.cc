// Vec / Point: unit vectors, angles between vectors, vector algebra.
// VC-SOURCES: ink/geometry/vec.cc
#include "vc.h"
#include "ink/geometry/vec.h"
#include "ink/geometry/point.h"
using ink::Angle; using ink::Vec; using ink::Point;
static const float kPi = 3.14159265358979f;

VC_PROOF(fp, unit_total) {
  Vec v{vc_float("x"), vc_float("y")};
  Vec u = v.AsUnitVec();
  bool nan = vc_isnan(v.x) | vc_isnan(v.y);
  vc_assert(vc_implies(nan, vc_isnan(u.x) & vc_isnan(u.y)), "NaN component gives NaN unit vector");
  vc_assert(vc_implies(!nan, (u.x >= -1) & (u.x <= 1) & (u.y >= -1) & (u.y <= 1)), "components of a unit vector lie in [-1,1]");
  vc_assert(vc_implies(!nan, (std::signbit(u.x) == std::signbit(v.x)) & (std::signbit(u.y) == std::signbit(v.y))), "unit vector keeps the component signs");
}
VC_PROOF(fp, unit_special) {
  Vec v{vc_float("x"), vc_float("y")};
  vc_assume(!vc_isnan(v.x) & !vc_isnan(v.y));
  bool ix = !vc_finite(v.x), iy = !vc_finite(v.y), z = (v.x == 0) & (v.y == 0);
  vc_assume(ix | iy | z);
  Vec u = v.AsUnitVec();
  vc_assert(vc_implies(z, (std::fabs(u.x) == 1) & (u.y == 0)), "zero vector: horizontal unit vector");
  vc_assert(vc_implies(ix & !iy, (std::fabs(u.x) == 1) & (u.y == 0)), "infinite x");
  vc_assert(vc_implies(!ix & iy, (std::fabs(u.y) == 1) & (u.x == 0)), "infinite y");
  vc_assert(vc_implies(ix & iy, (std::fabs(u.x) == std::fabs(u.y)) & (std::fabs(u.x) > 0.70710f) & (std::fabs(u.x) < 0.70711f)), "both infinite: diagonal");
}
VC_PROOF(real, unit_finite) {
  Vec v{vc_float("x"), vc_float("y")};
  vc_assume((v.x != 0) | (v.y != 0));
  Vec u = v.AsUnitVec();
  vc_assert(vc_near(u.x * u.x + u.y * u.y, 1, 1), "unit vector has magnitude 1");
  vc_assert(vc_near(u.x * v.y, u.y * v.x, std::fabs(v.x) + std::fabs(v.y)), "unit vector is parallel");
  vc_assert(u.x * v.x + u.y * v.y > 0, "unit vector has the same direction");
  float m = v.Magnitude();
  vc_assert(vc_near(u.x * m, v.x, m) & vc_near(u.y * m, v.y, m), "unit vector times magnitude is the vector");
}
VC_PROOF(real, algebra) {
  Vec a{vc_float("ax"), vc_float("ay")}, b{vc_float("bx"), vc_float("by")};
  float k = vc_float("k");
  float s = std::fabs(a.x) + std::fabs(a.y) + std::fabs(b.x) + std::fabs(b.y);
  vc_assert(vc_near(a.MagnitudeSquared(), a.x * a.x + a.y * a.y, a.x * a.x + a.y * a.y), "MagnitudeSquared");
  vc_assert(vc_near(a.Magnitude() * a.Magnitude(), a.x * a.x + a.y * a.y, a.x * a.x + a.y * a.y), "Magnitude squared is the sum of squares");
  vc_assert(a.Magnitude() >= 0, "Magnitude is non-negative");
  vc_assert(vc_near(Vec::DotProduct(a, b), a.x * b.x + a.y * b.y, s * s), "DotProduct");
  vc_assert(vc_near(Vec::Determinant(a, b), a.x * b.y - a.y * b.x, s * s), "Determinant");
  Vec o = a.Orthogonal();
  vc_assert((o.x == -a.y) & (o.y == a.x), "Orthogonal is a quarter turn counter-clockwise");
  Vec sum = a + b, dif = a - b, neg = -a, sc = k * a, sc2 = a * k;
  vc_assert((sum.x == a.x + b.x) & (sum.y == a.y + b.y), "a+b");
  vc_assert((dif.x == a.x - b.x) & (dif.y == a.y - b.y), "a-b");
  vc_assert((neg.x == -a.x) & (neg.y == -a.y), "-a");
  vc_assert((sc.x == k * a.x) & (sc.y == k * a.y), "k*a");
  vc_assert((sc2.x == k * a.x) & (sc2.y == k * a.y), "a*k");
  Vec c = a; c += b; vc_assert((c.x == a.x + b.x) & (c.y == a.y + b.y), "+=");
  c = a; c -= b; vc_assert((c.x == a.x - b.x) & (c.y == a.y - b.y), "-=");
  c = a; c *= k; vc_assert((c.x == a.x * k) & (c.y == a.y * k), "*=");
  vc_assert((a == b) == ((a.x == b.x) & (a.y == b.y)), "==");
  vc_assert((a != b) == !(a == b), "!=");
}
VC_PROOF(real, divide) {
  Vec a{vc_float("ax"), vc_float("ay")};
  float k = vc_float("k");
  vc_assume(k != 0);
  Vec q = a / k, c = a; c /= k;
  vc_assert(vc_near(q.x * k, a.x, a.x) & vc_near(q.y * k, a.y, a.y), "a/k");
  vc_assert(vc_near(c.x * k, a.x, a.x) & vc_near(c.y * k, a.y, a.y), "/=");
}
VC_PROOF(real, points) {
  Point p{vc_float("px"), vc_float("py")}, q{vc_float("qx"), vc_float("qy")};
  Vec v{vc_float("vx"), vc_float("vy")};
  Vec d = p - q; vc_assert((d.x == p.x - q.x) & (d.y == p.y - q.y), "p-q");
  Point a = p + v, b = v + p, c = p - v, e = p, f = p;
  e += v; f -= v;
  vc_assert((a.x == p.x + v.x) & (a.y == p.y + v.y) & (a == b) & (a == e), "p+v");
  vc_assert((c.x == p.x - v.x) & (c.y == p.y - v.y) & (c == f), "p-v");
  vc_assert((p.Offset().x == p.x) & (p.Offset().y == p.y), "Offset");
  vc_assert((p == q) == ((p.x == q.x) & (p.y == q.y)), "==");
  vc_assert((p != q) == !(p == q), "!=");
}
VC_PROOF(fp, direction) {
  Vec v{vc_float("x"), vc_float("y")};
  float d = v.Direction().ValueInRadians();
  vc_assert(vc_implies(!vc_isnan(v.x) & !vc_isnan(v.y), (d >= -kPi) & (d <= kPi)), "Direction lies in [-pi, pi]");
}
VC_PROOF(fpuf, polar) {
  float a = vc_float("a"), m = vc_float("m");
  Vec v = Vec::FromDirectionAndMagnitude(Angle::Radians(a), m);
  vc_assert(vc_same(v.x, m * std::cos(a)) & vc_same(v.y, m * std::sin(a)), "FromDirectionAndMagnitude");
}
