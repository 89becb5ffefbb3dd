// PhysicalDistance: unit factories, accessors, arithmetic and comparison act on the length.
// VC-SOURCES: ink/types/physical_distance.cc
#include "vc.h"
#include "ink/types/physical_distance.h"
using ink::PhysicalDistance;
static float num(const char* n) { float f = vc_float(n); vc_assume(f == f); return f; }
static PhysicalDistance cm(const char* n) { return PhysicalDistance::Centimeters(vc_float(n)); }
VC_PROOF(fp, centimeters) {
  float x = vc_float("x");
  vc_assert(vc_same(PhysicalDistance::Centimeters(x).ToCentimeters(), x), "centimetres read back as written");
  vc_assert(PhysicalDistance::Centimeters(x).IsFinite() == vc_finite(x), "IsFinite is finiteness of the length");
}
VC_PROOF(fp, zero) {
  vc_assert(PhysicalDistance::Zero().ToCentimeters() == 0, "Zero is a zero length");
  vc_assert(PhysicalDistance().ToCentimeters() == 0, "the default distance is a zero length");
  PhysicalDistance d = cm("x");
  vc_assert(vc_same((d + PhysicalDistance::Zero()).ToCentimeters(), d.ToCentimeters()), "adding zero");
  vc_assert(vc_same((PhysicalDistance::Zero() + d).ToCentimeters(), d.ToCentimeters()), "adding to zero");
  vc_assert(vc_same((PhysicalDistance::Zero() - d).ToCentimeters(), (-d).ToCentimeters()), "negation");
}
VC_PROOF(fp, to_meters) {
  float x = vc_float("x");
  vc_assert(vc_same(PhysicalDistance::Meters(x).ToCentimeters(), x * 100), "a metre is 100 cm");
  vc_assert(vc_same(PhysicalDistance::Centimeters(x).ToMeters(), x / 100), "ToMeters divides by 100");
}
VC_PROOF(fp, to_inches) {
  float x = vc_float("x");
  vc_assert(vc_same(PhysicalDistance::Inches(x).ToCentimeters(), x * 2.54f), "an inch is 2.54 cm");
  vc_assert(vc_same(PhysicalDistance::Centimeters(x).ToInches(), x / 2.54f), "ToInches divides by 2.54");
}
VC_PROOF(real, roundtrip) {
  float x = vc_finite_float("x");
  if (vc_mode() == 3) vc_assume((std::fabs(x) < 1e30f) & (std::fabs(x) > 1e-30f));
  vc_assert(vc_near(PhysicalDistance::Meters(x).ToMeters(), x, x), "metres read back");
  vc_assert(vc_near(PhysicalDistance::Inches(x).ToInches(), x, x), "inches read back");
  vc_assert(vc_within(PhysicalDistance::Inches(x).ToMeters(), 0.0254 * x, 1e-6 * std::fabs(x)), "inches to metres");
}
VC_PROOF(fp, compare) {
  float x = vc_float("x"), y = vc_float("y");
  PhysicalDistance a = PhysicalDistance::Centimeters(x), b = PhysicalDistance::Centimeters(y);
  vc_assert((a == b) == (x == y), "== compares lengths");
  vc_assert((a != b) == (x != y), "!= compares lengths");
  vc_assert((a < b) == (x < y), "< compares lengths");
  vc_assert((a > b) == (x > y), "> compares lengths");
  vc_assert((a <= b) == (x <= y), "<= compares lengths");
  vc_assert((a >= b) == (x >= y), ">= compares lengths");
}
VC_PROOF(fp, compare_units) {
  float x = vc_finite_float("x"), y = vc_finite_float("y");
  PhysicalDistance a = PhysicalDistance::Inches(x), b = PhysicalDistance::Meters(y);
  float u = a.ToCentimeters(), v = b.ToCentimeters();
  vc_assert(((a < b) == (u < v)) & ((a == b) == (u == v)) & ((a > b) == (u > v)), "comparison ignores the unit of construction");
}
VC_PROOF(fp, additive) {
  float x = vc_float("x"), y = vc_float("y");
  PhysicalDistance a = PhysicalDistance::Centimeters(x), b = PhysicalDistance::Centimeters(y);
  vc_assert(vc_same((a + b).ToCentimeters(), x + y), "sum");
  vc_assert(vc_same((a - b).ToCentimeters(), x - y), "difference");
  vc_assert(vc_same((-a).ToCentimeters(), -x), "negative");
  PhysicalDistance c = a; PhysicalDistance& r = (c += b);
  vc_assert(vc_same(c.ToCentimeters(), x + y) & (&r == &c), "+= adds in place");
  PhysicalDistance d = a; PhysicalDistance& q = (d -= b);
  vc_assert(vc_same(d.ToCentimeters(), x - y) & (&q == &d), "-= subtracts in place");
  vc_assert(vc_same(a.ToCentimeters(), x) & vc_same(b.ToCentimeters(), y), "operands are unchanged");
}
VC_PROOF(fp, negative_zero) {
  PhysicalDistance z = -PhysicalDistance::Zero();
  vc_assert(z == PhysicalDistance::Zero(), "minus zero is zero");
}
VC_PROOF(fp, scale) {
  float x = vc_float("x"), s = vc_float("s");
  PhysicalDistance a = PhysicalDistance::Centimeters(x);
  vc_assert(vc_same((a * s).ToCentimeters(), x * s), "product");
  vc_assert(vc_same((s * a).ToCentimeters(), x * s), "product, scalar first");
  PhysicalDistance d = a; PhysicalDistance& q = (d *= s);
  vc_assert(vc_same(d.ToCentimeters(), x * s) & (&q == &d), "*= scales in place");
}
VC_PROOF(fp, divide) {
  float x = vc_float("x"), s = vc_float("s");
  PhysicalDistance a = PhysicalDistance::Centimeters(x);
  vc_assert(vc_same((a / s).ToCentimeters(), x / s), "quotient by a scalar");
  PhysicalDistance d = a; PhysicalDistance& q = (d /= s);
  vc_assert(vc_same(d.ToCentimeters(), x / s) & (&q == &d), "/= divides in place");
  vc_assert(vc_same(a / PhysicalDistance::Centimeters(s), x / s), "ratio of two distances");
}
VC_PROOF(fp, self) {
  float x = vc_float("x");
  PhysicalDistance a = PhysicalDistance::Centimeters(x); a += a;
  vc_assert(vc_same(a.ToCentimeters(), x + x), "self +=");
  PhysicalDistance b = PhysicalDistance::Centimeters(x); b -= b;
  vc_assert(vc_same(b.ToCentimeters(), x - x), "self -=");
}
