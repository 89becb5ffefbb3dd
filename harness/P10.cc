// Angle: normalisation ranges, congruence, arithmetic/ordering act on the radian value.
// VC-SOURCES: ink/geometry/angle.cc ink/geometry/internal/jni/angle_jni.cc
// VC-FLAGS: -I/usr/lib/jvm/java-17-openjdk-amd64/include -I/usr/lib/jvm/java-17-openjdk-amd64/include/linux
#include <jni.h>
#include "vc.h"
#include "ink/geometry/angle.h"
using ink::Angle;
static const float kPi = 3.14159265358979f, k2Pi = 6.28318530717959f;

VC_PROOF(fp, normalized_range) {
  float r = vc_float("r");
  Angle n = Angle::Radians(r).Normalized();
  float v = n.ValueInRadians();
  vc_assert(vc_implies(vc_finite(r), (v >= 0) & (v < k2Pi)), "Normalized lies in [0, 2pi)");
  vc_assert(vc_implies((r >= 0) & (r < k2Pi), v == r), "Normalized keeps values already in range");
  vc_assert(vc_implies(!vc_finite(r), vc_isnan(v)), "Normalized of a non-finite angle is NaN");
}
VC_PROOF(fp, about_zero_range) {
  float r = vc_float("r");
  float v = Angle::Radians(r).NormalizedAboutZero().ValueInRadians();
  vc_assert(vc_implies(vc_finite(r), (v > -kPi) & (v <= kPi)), "NormalizedAboutZero lies in (-pi, pi]");
  vc_assert(vc_implies((r > -kPi) & (r <= kPi), v == r), "NormalizedAboutZero keeps values already in range");
  vc_assert(vc_implies(!vc_finite(r), vc_isnan(v)), "NormalizedAboutZero of a non-finite angle is NaN");
}
static bool whole_turns(float d) {
  double q = (double)d / (double)k2Pi;
  return vc_within(q, std::floor(q), 1e-6) | vc_within(q, std::floor(q) + 1, 1e-6);
}
VC_PROOF(real, normalized_congruent) {
  float r = vc_float("r");
  vc_assume((r > -1000) & (r < 1000));
  float v = Angle::Radians(r).Normalized().ValueInRadians();
  vc_assert(vc_mode() == 3 ? vc_within(std::sin(v), std::sin(r), 2e-4) & vc_within(std::cos(v), std::cos(r), 2e-4) : whole_turns(v - r), "Normalized differs by whole turns");
}
VC_PROOF(real, about_zero_congruent) {
  float r = vc_float("r");
  vc_assume((r > -1000) & (r < 1000));
  float v = Angle::Radians(r).NormalizedAboutZero().ValueInRadians();
  vc_assert(vc_mode() == 3 ? vc_within(std::sin(v), std::sin(r), 2e-4) & vc_within(std::cos(v), std::cos(r), 2e-4) : whole_turns(v - r), "NormalizedAboutZero differs by whole turns");
}
VC_PROOF(fp, arithmetic) {
  float x = vc_float("x"), y = vc_float("y"), k = vc_float("k");
  Angle a = Angle::Radians(x), b = Angle::Radians(y);
  vc_assert(vc_same(a.ValueInRadians(), x), "Radians round trip");
  vc_assert(vc_same((a + b).ValueInRadians(), x + y), "a+b");
  vc_assert(vc_same((a - b).ValueInRadians(), x - y), "a-b");
  vc_assert(vc_same((-a).ValueInRadians(), -x), "-a");
  vc_assert(vc_same((a * k).ValueInRadians(), x * k), "a*k");
  vc_assert(vc_same((k * a).ValueInRadians(), x * k), "k*a");
  vc_assert(vc_same((a / k).ValueInRadians(), x / k), "a/k");
  vc_assert(vc_same(a / b, x / y), "a/b");
  Angle c = a; c += b; vc_assert(vc_same(c.ValueInRadians(), x + y), "+=");
  c = a; c -= b; vc_assert(vc_same(c.ValueInRadians(), x - y), "-=");
  c = a; c *= k; vc_assert(vc_same(c.ValueInRadians(), x * k), "*=");
  c = a; c /= k; vc_assert(vc_same(c.ValueInRadians(), x / k), "/=");
  vc_assert(vc_same(Abs(a).ValueInRadians(), x < 0 ? -x : x), "Abs");
  vc_assert(vc_implies(!vc_isnan(x) & !vc_isnan(y), Min(a, b).ValueInRadians() == (x < y ? x : y)), "Min");
  vc_assert(vc_implies(!vc_isnan(x) & !vc_isnan(y), Max(a, b).ValueInRadians() == (x < y ? y : x)), "Max");
}
VC_PROOF(fp, order) {
  float x = vc_float("x"), y = vc_float("y");
  Angle a = Angle::Radians(x), b = Angle::Radians(y);
  vc_assert((a == b) == (x == y), "==");
  vc_assert((a != b) == (x != y), "!=");
  vc_assert((a < b) == (x < y), "<");
  vc_assert((a > b) == (x > y), ">");
  vc_assert((a <= b) == (x <= y), "<=");
  vc_assert((a >= b) == (x >= y), ">=");
}
VC_PROOF(fp, mod) {
  float x = vc_float("x"), y = vc_float("y");
  vc_assume(vc_finite(x) & vc_finite(y) & (y != 0));
  float v = Mod(Angle::Radians(x), Angle::Radians(y)).ValueInRadians();
  vc_assert(std::fabs(v) < std::fabs(y), "|Mod(a,b)| < |b|");
  vc_assert((v == 0) | ((v > 0) == (x > 0)), "Mod keeps the sign of a");
}
VC_PROOF(real, degrees) {
  float d = vc_finite_float("d");
  if (vc_mode() == 3) vc_assume((std::fabs(d) < 1e30f) & (std::fabs(d) > 1e-30f));
  double t = (vc_mode() == 3 ? 3e-7 : 1e-7) * std::fabs((double)d);
  Angle a = Angle::Degrees(d);
  vc_assert(vc_within(a.ValueInRadians(), (double)d * 3.14159265358979323846 / 180, t), "Degrees converts to radians");
  vc_assert(vc_within(Angle::Radians(d).ValueInDegrees(), (double)d * 180 / 3.14159265358979323846, 60 * t), "ValueInDegrees converts from radians");
  vc_assert(vc_within(a.ValueInDegrees(), d, 2 * t), "degrees round trip");
}
VC_PROOF(fp, degrees_fp) {
  float d = vc_float("d");
  float r = Angle::Degrees(d).ValueInRadians();
  vc_assert(vc_isnan(r) == vc_isnan(d), "Degrees is NaN only for NaN");
  vc_assert(vc_implies(!vc_isnan(d), std::fabs(r) <= std::fabs(d)), "Degrees of a finite value is finite");
  vc_assert(vc_implies(std::fabs(d) == VC_INF, r == d), "Degrees keeps infinities");
  vc_assert(vc_implies(d > 0, r >= 0) & vc_implies(d < 0, r <= 0), "Degrees keeps the sign");
  float g = Angle::Radians(d).ValueInDegrees();
  vc_assert(vc_isnan(g) == vc_isnan(d), "ValueInDegrees is NaN only for NaN");
  vc_assert(vc_implies(!vc_isnan(d), std::fabs(g) >= std::fabs(d)), "ValueInDegrees does not lose magnitude");
  vc_assert(vc_implies(d > 0, g > 0) & vc_implies(d < 0, g < 0), "ValueInDegrees keeps the sign");
  vc_assert(vc_implies(std::fabs(d) < 1e36f, vc_finite(g)), "ValueInDegrees of a moderate angle is finite");
}
// the exact remainder, wrapped by one turn at most
VC_PROOF(fp, normalized_exact) {
  float r = vc_float("r");
  vc_assume(vc_finite(r));
  float m = std::fmod(r, k2Pi), v = Angle::Radians(r).Normalized().ValueInRadians();
  vc_assert(vc_implies(m >= 0, v == m), "Normalized of a positive remainder is the remainder");
  vc_assert(vc_implies(m < 0, (v == m + k2Pi) | ((v == 0) & (m + k2Pi == k2Pi))), "Normalized of a negative remainder adds one turn");
}
VC_PROOF(fp, about_zero_exact) {
  float r = vc_float("r");
  vc_assume(vc_finite(r));
  float m = std::fmod(r, k2Pi), v = Angle::Radians(r).NormalizedAboutZero().ValueInRadians();
  vc_assert(vc_implies((m > -kPi) & (m <= kPi), v == m), "NormalizedAboutZero keeps a remainder in range");
  vc_assert(vc_implies(m > kPi, v == m - k2Pi), "NormalizedAboutZero subtracts one turn");
  vc_assert(vc_implies(m <= -kPi, v == m + k2Pi), "NormalizedAboutZero adds one turn");
}
VC_PROOF(fp, trigonometry) {
  float x = vc_float("x");
  Angle a = Angle::Radians(x);
  vc_assert(vc_same(Sin(a), std::sin(x)) & vc_same(Cos(a), std::cos(x)) & vc_same(Tan(a), std::tan(x)), "Sin, Cos and Tan act on the radian value");
  vc_assert(vc_same(ink::Asin(x).ValueInRadians(), std::asin(x)), "Asin gives radians");
  vc_assert(vc_same(ink::Acos(x).ValueInRadians(), std::acos(x)), "Acos gives radians");
  vc_assert(vc_same(ink::Atan(x).ValueInRadians(), std::atan(x)), "Atan gives radians");
}
VC_PROOF(fp, mod_exact) {
  float x = vc_float("x"), y = vc_float("y");
  vc_assert(vc_same(Mod(Angle::Radians(x), Angle::Radians(y)).ValueInRadians(), std::fmod(x, y)), "Mod is the exact remainder");
}
VC_PROOF(fp, constants) {
  vc_assert(ink::kFullTurn.ValueInRadians() == k2Pi, "kFullTurn is 2 pi");
  vc_assert(ink::kHalfTurn.ValueInRadians() == kPi, "kHalfTurn is pi");
  vc_assert(ink::kQuarterTurn.ValueInRadians() == kPi / 2, "kQuarterTurn is pi / 2");
  vc_assert(Angle().ValueInRadians() == 0, "a default angle is zero");
  vc_assert(vc_within(ink::numbers::kPi, 3.14159265358979323846, 1e-15) & vc_within(ink::numbers::kSqrt2, 1.41421356237309504880, 1e-15), "numbers");
}
extern "C" {
jfloat Java_androidx_ink_geometry_Angle_nativeNormalized(JNIEnv*, jclass, jfloat);
jfloat Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(JNIEnv*, jclass, jfloat);
}
VC_PROOF(fp, jni) {
  float r = vc_float("r");
  vc_assert(vc_same(Java_androidx_ink_geometry_Angle_nativeNormalized(nullptr, nullptr, r), Angle::Radians(r).Normalized().ValueInRadians()), "the Java binding normalises in radians");
  vc_assert(vc_same(Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(nullptr, nullptr, r), Angle::Radians(r).NormalizedAboutZero().ValueInRadians()), "the Java binding normalises about zero in radians");
}
VC_PROOF(fp, self_assign) {
  float x = vc_float("x");
  Angle a = Angle::Radians(x); Angle& p = (a += a); vc_assert(vc_same(a.ValueInRadians(), x + x) & (&p == &a), "a += a");
  Angle b = Angle::Radians(x); Angle& q = (b -= b); vc_assert(vc_same(b.ValueInRadians(), x - x) & (&q == &b), "a -= a");
}
