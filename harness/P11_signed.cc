// The polar contract of Vec::SignedAngleBetween used by AffineTransform::Find,
// over the contract of Vec::AsUnitVec (proved in P11.cc unit_finite).
// VC-SOURCES: ink/geometry/vec.cc
// VC-STUB: ^ink::Vec::AsUnitVec\(\) const$ => vcstub_AsUnitVec
#include "vc.h"
#include "ink/geometry/vec.h"
using ink::Angle; using ink::Vec;
#ifdef VC_SYMBOLIC
static Vec g_unit[2]; static int g_n = 0;
extern "C" __attribute__((used)) Vec vcstub_AsUnitVec(const Vec* v) {
  Vec u{vc_float("unit.x"), vc_float("unit.y")};
  float m = v->Magnitude();
  vc_assume((u.x * m == v->x) & (u.y * m == v->y) & (u.x * u.x + u.y * u.y == 1) & (u.x <= 1) & (u.x >= -1) & (u.y <= 1) & (u.y >= -1));
  if (g_n < 2) g_unit[g_n++] = u;
  return u;
}
#endif
VC_PROOF(real, polar_contract) {
  Vec a{vc_float("ax"), vc_float("ay")}, b{vc_float("bx"), vc_float("by")};
  vc_assume(((a.x != 0) | (a.y != 0)) & ((b.x != 0) | (b.y != 0)));
  if (vc_mode() == 3) vc_assume((a.Magnitude() > 0.1f) & (b.Magnitude() > 0.1f) & (a.Magnitude() < 100) & (b.Magnitude() < 100));
  float t = Vec::SignedAngleBetween(a, b).ValueInRadians();
  float LM = a.Magnitude() * b.Magnitude();
  float k = vc_mode() == 3 ? 1e3f * LM : 1;  // Acos near +-1 loses half the digits
#ifdef VC_SYMBOLIC
  {
    Vec u = g_unit[0], v = g_unit[1];  // ghost: the unit vectors the call computed
    float c = Vec::DotProduct(u, v), d = Vec::Determinant(u, v);
    float A = a.Magnitude(), B = b.Magnitude();
    vc_assert(u.x * A == a.x, "lemma: ax"); vc_assert(u.y * A == a.y, "lemma: ay");
    vc_assert(v.x * B == b.x, "lemma: bx"); vc_assert(v.y * B == b.y, "lemma: by");
    vc_assert(u.x * u.x + u.y * u.y == 1, "lemma: |u|=1"); vc_assert(v.x * v.x + v.y * v.y == 1, "lemma: |v|=1");
    vc_assert(c * c + d * d == 1, "lemma: unit circle");
    vc_assert((c <= 1) & (c >= -1), "lemma: |c| <= 1");
    vc_assert(c * LM == Vec::DotProduct(a, b), "lemma: dot"); vc_assert(d * LM == Vec::Determinant(a, b), "lemma: det");
    vc_assert(std::cos(t) == c, "lemma: cos t");
    vc_assert(std::sin(t) * std::sin(t) == d * d, "lemma: sin t squared");
    vc_assert(std::sin(t) == d, "lemma: sin t");
  }
#endif
  vc_assert(vc_near(std::cos(t) * LM, Vec::DotProduct(a, b), k), "cosine of the signed angle");
  vc_assert(vc_near(std::sin(t) * LM, Vec::Determinant(a, b), k), "sine of the signed angle");
}
