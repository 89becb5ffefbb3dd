// Interpolation of directions, over the contracts of Angle normalisation and Vec::SignedAngleBetween.
// VC-SOURCES: ink/geometry/internal/algorithms.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-STUB: ^ink::Vec::SignedAngleBetween\( => vcstub_SAB
// VC-STUB: ^ink::Angle::Normalized\(\) const$ => vcstub_Normalized
// VC-STUB: ^ink::Angle::NormalizedAboutZero\(\) const$ => vcstub_AboutZero
// VC-ASSUME: contracts of Angle::Normalized and NormalizedAboutZero used by P16_spiral: in range and congruent (proved in P10)
// VC-ASSUME: contract of Vec::SignedAngleBetween used by P16_spiral: an angle in [-pi, pi], 0 for equal vectors (P11)
#include "geo.h"
#include "ink/geometry/internal/algorithms.h"
using namespace ink::geometry_internal;
static const float kPi = 3.14159265358979f, k2Pi = 6.28318530717959f;
static float mod(const char* n) { float f = fin(n); if (vc_mode() == 3) vc_assume((std::fabs(f) < 100) & ((f == 0) | (std::fabs(f) > 1e-2f))); return f; }
static float g_sab, g_about, g_about_in, g_turns, g_norm_in;
#ifdef VC_SYMBOLIC
extern "C" __attribute__((used)) Angle vcstub_SAB(const Vec* a, const Vec* b) {
  g_sab = vc_float("angle");
  vc_assume((g_sab >= -kPi) & (g_sab <= kPi) & vc_implies((a->x == b->x) & (a->y == b->y), g_sab == 0));
  return Angle::Radians(g_sab);
}
extern "C" __attribute__((used)) Angle vcstub_Normalized(const Angle* a) {
  float r = a->ValueInRadians(), f = vc_float("normalized");
  g_norm_in = r;
  vc_assume((f >= 0) & (f < k2Pi) & vc_implies((r >= 0) & (r < k2Pi), f == r));
  return Angle::Radians(f);
}
extern "C" __attribute__((used)) Angle vcstub_AboutZero(const Angle* a) {
  float r = a->ValueInRadians(), f = vc_float("about_zero");
  g_about_in = r;
  vc_assume((f > -kPi) & (f <= kPi) & vc_implies((r > -kPi) & (r <= kPi), f == r));
  g_about = f;
  return Angle::Radians(f);
}
#endif
VC_PROOF(real, spiral) {
  Vec a{mod("ax"), mod("ay")}, b{mod("bx"), mod("by")};
  float t = mod("t");
  if (vc_mode() == 3) vc_assume((a.Magnitude() > 0.1f) & (b.Magnitude() > 0.1f) & (std::fabs(t) < 10));
  Vec r = SpiralLerp(a, b, t);
  if (vc_mode() == 3) g_sab = Vec::SignedAngleBetween(a, b).ValueInRadians();
  float m = (1 - t) * a.Magnitude() + t * b.Magnitude(), d = a.Direction().ValueInRadians() + t * g_sab;
  if ((t != 0) & (t != 1)) {
    vc_assert(vc_near(r.x, m * std::cos(d), 1e5f) & vc_near(r.y, m * std::sin(d), 1e5f), "spiral interpolation interpolates direction and magnitude");
    vc_assert(vc_near(r.x * r.x + r.y * r.y, m * m, 1e7f), "spiral interpolation interpolates the magnitude");
  }
}
VC_PROOF(fp, spiral_ends) {
  Vec a{num("ax"), num("ay")}, b{num("bx"), num("by")};
  vc_assert((SpiralLerp(a, b, 0) == a) & (SpiralLerp(a, b, 1) == b), "spiral interpolation reaches both ends exactly");
}
VC_PROOF(real, angle_lerp) {
  float a = mod("a"), b = mod("b"), t = mod("t");
  float r = NormalizedAngleLerp(Angle::Radians(a), Angle::Radians(b), t).ValueInRadians();
  vc_assert((r >= 0) & (r < k2Pi), "normalised angle interpolation lies in [0, 2pi)");
  if (vc_mode() == 3) {
    g_about = Angle::Radians(b - a).NormalizedAboutZero().ValueInRadians();
    vc_assume((std::fabs(g_about) < 3.1f) & (std::fabs(t) < 10));
    vc_assert(vc_within(std::cos(r), std::cos(a + t * g_about), 1e-3) & vc_within(std::sin(r), std::sin(a + t * g_about), 1e-3), "normalised angle interpolation turns in the shorter direction");
  } else {
    vc_assert(g_about_in == b - a, "the turn is taken between the given angles");
    vc_assert(g_norm_in == a + t * g_about, "normalised angle interpolation turns in the shorter direction");
  }
}
