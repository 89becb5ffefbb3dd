// Gamma functions, colour-space matrices and ConvertColor.
// VC-SOURCES: ink/color/color_space.cc
#include <array>
#include <string>
#include "vc.h"
#include "ink/color/color_space.h"
using namespace ink;
static ColorSpace space(const char* n) { return vc_choose(n, 0, 1) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
static const double kD = 0.04045, kL = 0.04045 / 12.92;
static const float kDf = 0.04045f;                    // the first float that is decoded by the power segment is at or just above 0.04045
static float num(const char* n) { float f = vc_float(n); vc_assume(f == f); return f; }

// ground instances of the power function around the thresholds, for its monotonicity axiom
static double around() {
  double t = 0;
  for (double d : {0.0404499, 0.0404501}) { double p = std::pow((d + 0.055) / 1.055, 2.4); t += std::pow(p, 1.0 / 2.4); }
  return t;
}
VC_PROOF(fp, total) {
  around();
  ColorSpace s = space("s"); float x = num("x");
  float d = GammaDecode(x, s), e = GammaEncode(x, s);
  vc_assert(!vc_isnan(d) & !vc_isnan(e), "gamma functions never turn a channel into NaN");
  vc_assert(vc_implies(x >= 0, (d >= 0) & (e >= 0)) & vc_implies(x <= 0, (d <= 0) & (e <= 0)), "gamma functions keep the sign");
  vc_assert(vc_implies((x >= 0) & (x <= 1), (d <= 1) & (e <= 1)), "gamma functions keep the unit interval");
}
VC_PROOF(fp, fixed_points) {
  ColorSpace s = space("s");
  vc_assert((GammaDecode(0, s) == 0) & (GammaEncode(0, s) == 0), "zero is fixed");
  vc_assert(vc_within(GammaDecode(1, s), 1, 1e-7) & vc_within(GammaEncode(1, s), 1, 1e-7), "one is fixed");
  // IEC 61966-2-1 reference values
  vc_assert(vc_within(GammaDecode(0.5f, s), 0.21404114048223255, 1e-7) & vc_within(GammaEncode(0.21404114f, s), 0.5, 2e-7), "middle grey");
  vc_assert(vc_within(GammaDecode(0.2f, s), 0.033104766570885055, 1e-7) & vc_within(GammaDecode(0.8f, s), 0.6038273388553378, 1e-7), "reference values");
  vc_assert(vc_within(GammaDecode(0.02f, s), 0.02 / 12.92, 1e-8) & vc_within(GammaEncode(0.002f, s), 0.002 * 12.92, 1e-7), "linear segment");
}
VC_PROOF(fp, decode_monotone) {
  ColorSpace s = space("s"); float x = num("x"), y = num("y");
  vc_assume(x <= y);
  // the three floats around the threshold
  float b = GammaDecode(0x1.4b5dccp-5f, s), a = GammaDecode(0x1.4b5dcep-5f, s), c = GammaDecode(0x1.4b5dd0p-5f, s);
  vc_assert((b <= a) & (a <= c), "lemma: decode is monotone at the threshold");
  bool lx = x < 0.04045, ly = y < 0.04045;
  float dx = GammaDecode(x, s), dy = GammaDecode(y, s);
  vc_assert(vc_implies(ly, dx <= dy), "lemma: non-decreasing on the linear segment");
  vc_assert(vc_implies(!lx, dx <= dy), "lemma: non-decreasing on the power segment");
  vc_assert(vc_implies(lx, dx <= b), "lemma: A");
  vc_assert(vc_implies(!ly, dy >= a), "lemma: B");
  vc_assert(dx <= dy, "GammaDecode is non-decreasing");
}
VC_PROOF(real, decode_formula) {
  ColorSpace s = space("s"); float x = vc_finite_float("x");
  if (vc_mode() == 3) vc_assume((std::fabs(x) < 1e10f) & (std::fabs(x) > 1e-10f)); else vc_assume(x < 1e10f);
  float d = GammaDecode(x, s);
  double t = vc_mode() == 3 ? 1e-6 : 1e-8;
  if (x < 0.0404499f) vc_assert(vc_within(d * 12.92, x, t * std::fabs(x)), "decoding is linear below the threshold");
  else if (x > 0.0404501f) vc_assert(vc_within(std::pow((double)d, 1.0 / 2.4) * 1.055 - 0.055, x, t * x), "decoding inverts the sRGB power segment");
}
VC_PROOF(real, encode_formula) {
  ColorSpace s = space("s"); float x = vc_finite_float("x");
  if (vc_mode() == 3) vc_assume((std::fabs(x) < 1e10f) & (std::fabs(x) > 1e-10f)); else vc_assume(x < 1e10f);
  float e = GammaEncode(x, s);
  double t = vc_mode() == 3 ? 1e-6 : 1e-8;
  if (x < 0.0031308f) vc_assert(vc_within(e, x * 12.92, t * std::fabs(x) * 12.92), "encoding is linear below the threshold");
  else if (x > 0.0031309f) vc_assert(vc_within(e, 1.055 * std::pow((double)x, 1.0 / 2.4) - 0.055, t * 12.92 * x), "encoding follows the sRGB power segment");
}
VC_PROOF(real, decode_encode) {
  ColorSpace s = space("s"); float x = vc_finite_float("x");
  if (vc_mode() == 3) vc_assume((std::fabs(x) < 1e10f) & (std::fabs(x) > 1e-10f)); else vc_assume((x < 1e10f) & ((x > 1e-20f) | (x <= 0)));
  around();
  float r = GammaEncode(GammaDecode(x, s), s);
  vc_assert(vc_within(r, x, 5e-6 * std::fabs(x)), "encoding undoes decoding");
}
VC_PROOF(real, encode_decode) {
  ColorSpace s = space("s"); float x = vc_finite_float("x");
  if (vc_mode() == 3) vc_assume((std::fabs(x) < 1e10f) & (std::fabs(x) > 1e-10f)); else vc_assume((x < 1e10f) & ((x > 1e-20f) | (x <= 0)));
  around();
  float r = GammaDecode(GammaEncode(x, s), s);
  vc_assert(vc_within(r, x, 2e-5 * std::fabs(x)), "decoding undoes encoding");
}
VC_PROOF(fp, parameters) {
  auto p = GetGammaDecodingParameters(space("s"));
  vc_assert(vc_within(p[0], 1 / 1.055, 1e-7) & vc_within(p[1], 0.055 / 1.055, 1e-8) & vc_within(p[2], 1 / 12.92, 1e-8) & vc_within(p[3], 0.04045, 1e-8) & vc_within(p[4], 2.4, 2e-7), "the parameters are those of the sRGB curve");
}
// CIE chromaticities of the primaries and of D65
static double prim(ColorSpace s, int c, int i) {
  static const double srgb[3][2] = {{0.640, 0.330}, {0.300, 0.600}, {0.150, 0.060}}, p3[3][2] = {{0.680, 0.320}, {0.265, 0.690}, {0.150, 0.060}};
  const double* p = s == ColorSpace::kSrgb ? srgb[c] : p3[c];
  return i < 2 ? p[i] : 1 - p[0] - p[1];
}
VC_PROOF(real, to_xyz) {
  ColorSpace s = space("s");
  auto m = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor);
  for (int c = 0; c < 3; ++c) {
    double sum = (double)m[3 * c] + m[3 * c + 1] + m[3 * c + 2];
    for (int i = 0; i < 3; ++i) vc_assert(vc_within(m[3 * c + i], prim(s, c, i) * sum, 1e-6), "each column is the XYZ colour of a primary");
  }
  const double white[3] = {0.3127 / 0.3290, 1, (1 - 0.3127 - 0.3290) / 0.3290};
  for (int i = 0; i < 3; ++i) vc_assert(vc_within((double)m[i] + m[3 + i] + m[6 + i], white[i], 3e-4), "the primaries add up to D65 white");
}
VC_PROOF(real, inverse) {
  ColorSpace s = space("s");
  auto a = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), b = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kColumnMajor);
  for (int c = 0; c < 3; ++c)
    for (int r = 0; r < 3; ++r) {
      double p = (double)b[r] * a[3 * c] + (double)b[3 + r] * a[3 * c + 1] + (double)b[6 + r] * a[3 * c + 2];
      vc_assert(vc_within(p, r == c, 1e-6), "the matrices are inverse to each other");
    }
}
VC_PROOF(fp, layout) {
  ColorSpace s = space("s");
  auto a = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), at = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kRowMajor);
  auto b = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kColumnMajor), bt = GetXyzD65ToColorSpaceMatrix(s, MatrixLayout::kRowMajor);
  for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) vc_assert((a[3 * c + r] == at[3 * r + c]) & (b[3 * c + r] == bt[3 * r + c]), "layouts are transposes");
}
VC_PROOF(fp, same_space) {
  ColorSpace s = space("s");
  std::array<float, 4> v = {vc_float("r"), vc_float("g"), vc_float("b"), vc_float("a")};
  auto w = ConvertColor(v, s, s);
  for (int i = 0; i < 4; ++i) vc_assert(vc_same(w[i], v[i]), "conversion to the same space is the identity");
}
VC_PROOF(fp, alpha) {
  ColorSpace s = space("s"), t = space("t");
  std::array<float, 4> v = {vc_float("r"), vc_float("g"), vc_float("b"), vc_float("a")};
  vc_assert(vc_same(ConvertColor(v, s, t)[3], v[3]), "conversion keeps alpha");
}
static float chan(const char* n) { float f = vc_finite_float(n); if (vc_mode() == 3) vc_assume(std::fabs(f) < 1e6f); return f; }
VC_PROOF(real, convert) {
  ColorSpace s = space("s"), t = space("t");
  std::array<float, 4> v = {chan("r"), chan("g"), chan("b"), 1};
  double m = std::fmax(std::fmax(std::fabs(v[0]), std::fabs(v[1])), std::fabs(v[2]));
  auto a = GetColorSpaceToXyzD65Matrix(s, MatrixLayout::kColumnMajor), b = GetXyzD65ToColorSpaceMatrix(t, MatrixLayout::kColumnMajor);
  auto w = ConvertColor(v, s, t);
  double x[3];
  for (int i = 0; i < 3; ++i) x[i] = (double)a[i] * v[0] + (double)a[3 + i] * v[1] + (double)a[6 + i] * v[2];
  for (int i = 0; i < 3; ++i) vc_assert(vc_within(w[i], (double)b[i] * x[0] + (double)b[3 + i] * x[1] + (double)b[6 + i] * x[2], 4e-6 * m), "conversion goes through XYZ");
}
VC_PROOF(real, convert_back) {
  ColorSpace s = space("s"), t = space("t");
  std::array<float, 4> v = {chan("r"), chan("g"), chan("b"), 1};
  double m = std::fmax(std::fmax(std::fabs(v[0]), std::fabs(v[1])), std::fabs(v[2]));
  auto w = ConvertColor(ConvertColor(v, s, t), t, s);
  for (int i = 0; i < 3; ++i) vc_assert(vc_within(w[i], v[i], 2e-6 * m), "converting there and back restores the colour");
}
VC_PROOF(fp, white) {
  ColorSpace s = space("s"), t = space("t");
  auto w = ConvertColor({1, 1, 1, 1}, s, t);
  for (int i = 0; i < 3; ++i) vc_assert(vc_within(w[i], 1, 1e-6), "white stays white");
}
VC_PROOF(fp, names) {
  vc_assert(ToFormattedString(ColorSpace::kSrgb) == "sRGB", "sRGB");
  vc_assert(ToFormattedString(ColorSpace::kDisplayP3) == "Display-P3", "Display-P3");
}
