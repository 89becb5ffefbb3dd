// Quad::Join, against the contract of Angle::Normalized (proved in P10).
// VC-SOURCES: ink/geometry/quad.cc ink/geometry/rect.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/affine_transform.cc ink/geometry/triangle.cc
// VC-STUB: ^ink::Angle::Normalized\(\) const$ => vcstub_Normalized
// VC-ASSUME: contract of Angle::Normalized used by P15_join: in [0, 2pi), and such an angle is kept (proved in P10)
#include "geo.h"
static const float k2Pi = 6.28318530717959f;
static const float S = 1e5f;
#ifdef VC_SYMBOLIC
// an angle in [0, 2pi) is returned as it is (P10, P15 "a normalised rotation is kept"); any other is mapped into that range
extern "C" __attribute__((used)) Angle vcstub_Normalized(const Angle* a) {
  float r = a->ValueInRadians();
  if (vc_split((r >= 0) & (r < k2Pi))) return *a;
  float f = vc_float("normalized"); vc_assume((f >= 0) & (f < k2Pi));
  return Angle::Radians(f);
}
#endif
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
static float ang() { float r = vc_float("r"); vc_assume((r >= 0) & (r < k2Pi)); return r; }
static Point mpt() { float x = mod("px"); float y = mod("py"); return {x, y}; }
static bool at(Point p, float x, float y, float s) { return vc_near(p.x, x, s) & vc_near(p.y, y, s); }
static Quad state(bool cached) {
  Point c = mpt(); float w = mod("w"), h = mod("h"), r = ang(), k = mod("k");
  vc_assume(w >= 0);
  Quad q = Quad::FromCenterDimensionsRotationAndShear(c, w, h, Angle::Radians(r), k);
  if (cached) q.SemiAxes();
  return q;
}
VC_PROOF(real, join) {
  Quad q = state(false); Point p = mpt();
  if (vc_mode() == 3) vc_assume((std::fabs(q.ShearFactor()) < 5));
  Quad o = q;
  vc_split(q.Height() >= 0);
  q.Join(p);
  vc_assert((q.Rotation() == o.Rotation()) & (q.ShearFactor() == o.ShearFactor()), "Join keeps rotation and shear");
  float c = std::cos(o.Rotation().ValueInRadians()), s = std::sin(o.Rotation().ValueInRadians()), k = o.ShearFactor();
  // coordinates along the (unit) axes of the old corners and the point, relative to the new centre
  float tol = vc_mode() == 3 ? 1e-2f : 0;
  float mx = o.Center().x - q.Center().x, my = o.Center().y - q.Center().y;
  float m2 = c * my - s * mx, m1 = c * mx + s * my - k * m2;
  float dx = p.x - q.Center().x, dy = p.y - q.Center().y;
  float d2 = c * dy - s * dx, d1 = c * dx + s * dy - k * d2;
  float ox = p.x - o.Center().x, oy = p.y - o.Center().y;
  float o2 = c * oy - s * ox, o1 = c * ox + s * oy - k * o2;
  float h = std::fabs(q.Height()), oh = std::fabs(o.Height()), w = q.Width(), ow = o.Width();
  vc_assert(vc_near(w, std::fmax(ow, ow / 2 + std::fabs(o1)), S * 10), "lemma: joined width");
  vc_assert(vc_near(h, std::fmax(oh, oh / 2 + std::fabs(o2)), S * 10), "lemma: joined height");
  vc_assert(vc_near(m1, (o1 >= 0 ? -1 : 1) * (w - ow) / 2, S * 10), "lemma: centre moves along the first axis");
  vc_assert(vc_near(m2, (o2 >= 0 ? -1 : 1) * (h - oh) / 2, S * 10), "lemma: centre moves along the second axis");
  vc_assert(vc_near(d1, m1 + o1, S * 10) & vc_near(d2, m2 + o2, S * 10), "lemma: point relative to the new centre");
  vc_assert((std::fabs(m1) + ow / 2 <= w / 2 + tol) & (std::fabs(m2) + oh / 2 <= h / 2 + tol), "Join contains the old quad");
  vc_assert((std::fabs(d1) <= w / 2 + tol) & (std::fabs(d2) <= h / 2 + tol), "Join contains the point");
  vc_assert(vc_implies(o.Height() > 0, q.Height() > 0) & vc_implies(o.Height() < 0, q.Height() < 0), "Join keeps the orientation");
}
VC_PROOF(real, join_inside) {
  Quad q = state(false); Point p = mpt();
  if (vc_mode() == 3) vc_assume((std::fabs(q.ShearFactor()) < 5));
  vc_assume(q.Contains(p));
  Quad o = q;
  q.Join(p);
  vc_assert(vc_near(q.Width(), o.Width(), S) & vc_near(q.Height(), o.Height(), S) & at(q.Center(), o.Center().x, o.Center().y, S), "joining a contained point changes nothing");
}
