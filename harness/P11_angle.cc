// Angles between vectors, over the contract of Vec::AsUnitVec (proved in P11.cc unit_total).
// VC-SOURCES: ink/geometry/vec.cc
// VC-STUB: ^ink::Vec::AsUnitVec\(\) const$ => vcstub_AsUnitVec
#include "vc.h"
#include "ink/geometry/vec.h"
using ink::Angle; using ink::Vec;
static const float kPi = 3.14159265358979f;
#ifdef VC_SYMBOLIC
extern "C" __attribute__((used)) Vec vcstub_AsUnitVec(const Vec* v) {
  Vec u{vc_float("unit.x"), vc_float("unit.y")};
  bool nan = vc_isnan(v->x) | vc_isnan(v->y);
  vc_assume(vc_implies(nan, vc_isnan(u.x) & vc_isnan(u.y)));
  vc_assume(vc_implies(!nan, (u.x >= -1) & (u.x <= 1) & (u.y >= -1) & (u.y <= 1)));
  return u;
}
#endif
VC_PROOF(fp, absolute) {
  Vec a{vc_float("ax"), vc_float("ay")}, b{vc_float("bx"), vc_float("by")};
  vc_assume(!vc_isnan(a.x) & !vc_isnan(a.y) & !vc_isnan(b.x) & !vc_isnan(b.y));
  float r = Vec::AbsoluteAngleBetween(a, b).ValueInRadians();
  vc_assert((r >= 0) & (r <= kPi), "AbsoluteAngleBetween lies in [0, pi]");
}
VC_PROOF(fp, signed_) {
  Vec a{vc_float("ax"), vc_float("ay")}, b{vc_float("bx"), vc_float("by")};
  vc_assume(!vc_isnan(a.x) & !vc_isnan(a.y) & !vc_isnan(b.x) & !vc_isnan(b.y));
  float r = Vec::SignedAngleBetween(a, b).ValueInRadians();
  vc_assert((r > -kPi) & (r <= kPi), "SignedAngleBetween lies in (-pi, pi]");
}
