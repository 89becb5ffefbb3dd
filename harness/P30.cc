// Color: channel invariants, format conversions, gamut operations.
// VC-SOURCES: ink/color/color.cc ink/color/color_space.cc
// VC-STUB: ^ink::GammaDecode\(float, ink::ColorSpace\)$ => vcstub_decode
// VC-STUB: ^ink::GammaEncode\(float, ink::ColorSpace\)$ => vcstub_encode
#include <array>
#include "vc.h"
#include "ink/color/color.h"
using namespace ink;
using F = Color::Format;
#ifdef VC_SYMBOLIC
// Contracts of the transfer functions, proved in P31: total, sign and unit interval preserving, 0 and 1 fixed;
// they are functions of the channel (uninterpreted otherwise).
extern "C" float vc_uf_gamma_decode(float, int);
extern "C" float vc_uf_gamma_encode(float, int);
static void contract(float x, float r) {
  vc_assume(vc_isnan(r) == vc_isnan(x));
  vc_assume(vc_implies(x >= 0, r >= 0) & vc_implies(x <= 0, r <= 0) & vc_implies((x >= 0) & (x <= 1), r <= 1));
}
extern "C" __attribute__((used)) float vcstub_decode(float x, ColorSpace s) { float r = vc_uf_gamma_decode(x, (int)s); contract(x, r); return r; }
extern "C" __attribute__((used)) float vcstub_encode(float x, ColorSpace s) { float r = vc_uf_gamma_encode(x, (int)s); contract(x, r); return r; }
#endif
static ColorSpace space(const char* n) { return vc_bool(n) ? ColorSpace::kDisplayP3 : ColorSpace::kSrgb; }
static float z(float x) { return vc_isnan(x) ? 0 : x; }
static float unit(float x) { return x >= 1 ? 1 : x >= 0 ? x : 0; }
static bool valid(const Color& c) {
  Color::RgbaFloat v = c.AsFloat(F::kLinear);
  return !(vc_isnan(v.r) | vc_isnan(v.g) | vc_isnan(v.b)) & (v.a >= 0) & (v.a <= 1) & (c.GetAlphaFloat() == v.a);
}
static bool eq(Color::RgbaFloat v, float r, float g, float b, float a) { return (v.r == r) & (v.g == g) & (v.b == b) & (v.a == a); }
// any colour that can exist: the invariant of the class
static Color any() {
  float r = vc_float("r"), g = vc_float("g"), b = vc_float("b"), a = vc_float("a");
  vc_assume(!(vc_isnan(r) | vc_isnan(g) | vc_isnan(b)) & (a >= 0) & (a <= 1));
  return Color::FromFloat(r, g, b, a, F::kLinear, space("s"));
}
VC_PROOF(fp, default_color) {
  Color c;
  vc_assert(eq(c.AsFloat(F::kLinear), 0, 0, 0, 1) & (c.GetColorSpace() == ColorSpace::kSrgb), "the default colour is opaque black in sRGB");
}
VC_PROOF(fp, from_linear) {
  float r = vc_float("r"), g = vc_float("g"), b = vc_float("b"), a = vc_float("a"); ColorSpace s = space("s");
  Color c = Color::FromFloat(r, g, b, a, F::kLinear, s);
  vc_assert(valid(c), "no channel is NaN and alpha is in [0, 1]");
  vc_assert(eq(c.AsFloat(F::kLinear), z(r), z(g), z(b), unit(z(a))), "linear channels are kept, NaN becomes 0, alpha is clamped");
  vc_assert(c.GetColorSpace() == s, "the colour space is kept");
}
VC_PROOF(fp, from_gamma) {
  float r = vc_float("r"), g = vc_float("g"), b = vc_float("b"), a = vc_float("a"); ColorSpace s = space("s");
  Color c = Color::FromFloat(r, g, b, a, F::kGammaEncoded, s);
  vc_assert(valid(c), "no channel is NaN and alpha is in [0, 1]");
  vc_assert(eq(c.AsFloat(F::kLinear), GammaDecode(z(r), s), GammaDecode(z(g), s), GammaDecode(z(b), s), unit(z(a))), "each colour channel is gamma decoded, alpha is not");
  vc_assert(c.GetColorSpace() == s, "the colour space is kept");
  Color d = Color::FromFloat(r, g, b, a);
  vc_assert(vc_implies(s == ColorSpace::kSrgb, d == c), "gamma-encoded sRGB is the default");
}
VC_PROOF(fp, from_premultiplied) {
  float r = vc_float("r"), g = vc_float("g"), b = vc_float("b"), a = vc_float("a"); ColorSpace s = space("s");
  float ua = unit(z(a));
  vc_assume((ua != 0) | ((z(r) == 0) & (z(g) == 0) & (z(b) == 0)));
  Color c = Color::FromFloat(r, g, b, a, F::kPremultipliedAlpha, s);
  vc_assert(valid(c), "no channel is NaN and alpha is in [0, 1]");
  vc_assert(vc_implies(ua == 0, eq(c.AsFloat(F::kLinear), 0, 0, 0, 0)), "premultiplied transparent black");
  vc_assert(vc_implies(ua != 0, eq(c.AsFloat(F::kLinear), z(r) / ua, z(g) / ua, z(b) / ua, ua)), "colour channels are divided by alpha");
  vc_assert(c.GetColorSpace() == s, "the colour space is kept");
}
VC_PROOF(fp, as_float) {
  Color c = any();
  auto l = c.AsFloat(F::kLinear), g = c.AsFloat(F::kGammaEncoded), p = c.AsFloat(F::kPremultipliedAlpha);
  ColorSpace s = c.GetColorSpace();
  vc_assert(eq(g, GammaEncode(l.r, s), GammaEncode(l.g, s), GammaEncode(l.b, s), l.a), "each colour channel is gamma encoded, alpha is not");
  vc_assert(vc_implies(l.a == 0, eq(p, 0, 0, 0, 0)), "premultiplying by zero alpha gives zero");
  vc_assert(vc_implies(l.a != 0, eq(p, l.r * l.a, l.g * l.a, l.b * l.a, l.a)), "premultiplying multiplies the colour channels");
}
VC_PROOF(real, premultiplied_roundtrip) {
  float r = vc_finite_float("r"), g = vc_finite_float("g"), b = vc_finite_float("b"), a = vc_finite_float("a");
  vc_assume((a > 0) & (a <= 1));
  if (vc_mode() == 3) vc_assume((a > 1e-3f) & (std::fabs(r) < 1e6f) & (std::fabs(g) < 1e6f) & (std::fabs(b) < 1e6f));
  auto p = Color::FromFloat(r, g, b, a, F::kPremultipliedAlpha).AsFloat(F::kPremultipliedAlpha);
  vc_assert(vc_near(p.r, r, r) & vc_near(p.g, g, g) & vc_near(p.b, b, b) & (p.a == a), "premultiplied channels are restored");
}
static void u8_roundtrip(uint8_t* v, F f) {
  Color c = Color::FromUint8(v[0], v[1], v[2], v[3], f);
  Color::RgbaUint8 o = c.AsUint8(f);
  vc_assert((o.r == v[0]) & (o.g == v[1]) & (o.b == v[2]) & (o.a == v[3]), "8-bit channels survive a round trip");
  vc_assert(c.AsPackedUint32RGBA(f) == (uint32_t{v[0]} << 24 | uint32_t{v[1]} << 16 | uint32_t{v[2]} << 8 | v[3]), "packing is in RGBA order");
}
VC_PROOF(fp, uint8_linear) {
  uint8_t v[4] = {vc_u8("r"), vc_u8("g"), vc_u8("b"), vc_u8("a")};
  u8_roundtrip(v, F::kLinear);
}
VC_PROOF(fp, uint8_values) {
  uint8_t v[4] = {vc_u8("r"), vc_u8("g"), vc_u8("b"), vc_u8("a")};
  ColorSpace s = space("s");
  Color c = Color::FromUint8(v[0], v[1], v[2], v[3], F::kLinear, s);
  vc_assert(c == Color::FromFloat(v[0] / 255.f, v[1] / 255.f, v[2] / 255.f, v[3] / 255.f, F::kLinear, s), "8-bit channels are fixed-point fractions");
  Color d = Color::FromUint8(v[0], v[1], v[2], v[3], F::kGammaEncoded, s);
  vc_assert(d == Color::FromFloat(v[0] / 255.f, v[1] / 255.f, v[2] / 255.f, v[3] / 255.f, F::kGammaEncoded, s), "8-bit gamma channels are fixed-point fractions");
  uint32_t w = uint32_t{v[0]} << 24 | uint32_t{v[1]} << 16 | uint32_t{v[2]} << 8 | v[3];
  vc_assert((Color::FromPackedUint32RGBA(w, F::kLinear, s) == c) & (Color::FromPackedUint32RGBA(w, F::kGammaEncoded, s) == d), "packed channels are unpacked in RGBA order");
}
VC_PROOF(fp, uint8_premultiplied) {
  uint8_t v[4] = {vc_u8("r"), vc_u8("g"), vc_u8("b"), 255};
  u8_roundtrip(v, F::kPremultipliedAlpha);
}
VC_PROOF(fp, as_uint8) {
  Color c = any();
  F f = vc_split(vc_bool("f")) ? F::kLinear : F::kPremultipliedAlpha;
  auto l = c.AsFloat(f); auto o = c.AsUint8(f);
  auto near = [](float x, uint8_t u) { return (x <= 0 ? u == 0 : x >= 1 ? u == 255 : (std::fabs(x * 255 - u) <= 0.5f)); };
  vc_assert(near(l.r, o.r), "AsUint8 clamps and rounds to nearest (r)");
  vc_assert(near(l.g, o.g), "AsUint8 clamps and rounds to nearest (g)");
  vc_assert(near(l.b, o.b), "AsUint8 clamps and rounds to nearest (b)");
  vc_assert(near(l.a, o.a), "AsUint8 clamps and rounds to nearest (a)");
}
VC_PROOF(fp, as_uint8_gamma) {
  Color c = any();
  auto l = c.AsFloat(F::kGammaEncoded); auto o = c.AsUint8(F::kGammaEncoded);
  auto near = [](float x, uint8_t u) { return (x <= 0 ? u == 0 : x >= 1 ? u == 255 : (std::fabs(x * 255 - u) <= 0.5f)); };
  vc_assert(near(l.r, o.r), "AsUint8 clamps and rounds to nearest (r)");
  vc_assert(near(l.g, o.g), "AsUint8 clamps and rounds to nearest (g)");
  vc_assert(near(l.b, o.b), "AsUint8 clamps and rounds to nearest (b)");
  vc_assert(near(l.a, o.a), "AsUint8 clamps and rounds to nearest (a)");
}
VC_PROOF(fp, equality) {
  Color a = any(), b = any();
  auto x = a.AsFloat(F::kLinear), y = b.AsFloat(F::kLinear);
  bool e = eq(x, y.r, y.g, y.b, y.a) & (a.GetColorSpace() == b.GetColorSpace());
  vc_assert(((a == b) == e) & ((a != b) == !e), "equality compares all channels and the space");
  vc_assert((a == a) & a.NearlyEquals(a), "a colour equals itself");
  Color c = a; c = b;
  vc_assert(c == b, "assignment copies");
}
VC_PROOF(fp, nearly_equals) {
  Color a = any(), b = any();
  vc_assume(a.GetColorSpace() == b.GetColorSpace());
  auto x = a.AsFloat(F::kLinear), y = b.AsFloat(F::kLinear);
  vc_assume(vc_finite(x.r) & vc_finite(x.g) & vc_finite(x.b) & vc_finite(y.r) & vc_finite(y.g) & vc_finite(y.b));
  auto close = [](float p, float q, float e) { return std::fabs(p - q) <= e; };
  vc_assert(vc_implies(a.NearlyEquals(b), close(x.r, y.r, 7.63e-6f) & close(x.g, y.g, 7.63e-6f) & close(x.b, y.b, 7.63e-6f) & close(x.a, y.a, 7.63e-6f)), "nearly equal colours differ by half a 16-bit step at most");
  vc_assert(vc_implies(close(x.r, y.r, 7.62e-6f) & close(x.g, y.g, 7.62e-6f) & close(x.b, y.b, 7.62e-6f) & close(x.a, y.a, 7.62e-6f), a.NearlyEquals(b)), "close colours are nearly equal");
}
static bool in01(float x) { return (x >= 0) & (x <= 1); }
VC_PROOF(fp, gamut) {
  Color c = any(); auto v = c.AsFloat(F::kLinear);
  vc_assert(c.IsInGamut() == (in01(v.r) & in01(v.g) & in01(v.b)), "IsInGamut");
  auto nr = [](float x, float e) { return (x >= -e) & (x <= 1 + e); };
  vc_assert(vc_implies(c.IsNearlyInGamut(), nr(v.r, 7.75e-6f) & nr(v.g, 7.75e-6f) & nr(v.b, 7.75e-6f)), "IsNearlyInGamut accepts only channels near [0, 1]");
  vc_assert(vc_implies(nr(v.r, 7.5e-6f) & nr(v.g, 7.5e-6f) & nr(v.b, 7.5e-6f), c.IsNearlyInGamut()), "IsNearlyInGamut accepts all channels near [0, 1]");
}
VC_PROOF(fp, clamp) {
  Color c = any(); auto v = c.AsFloat(F::kLinear);
  Color k = c.ClampedToGamut();
  vc_assert(valid(k) & k.IsInGamut() & (k.GetColorSpace() == c.GetColorSpace()), "clamping gives a colour in gamut");
  vc_assert(eq(k.AsFloat(F::kLinear), unit(v.r), unit(v.g), unit(v.b), v.a), "clamping clamps each channel");
  vc_assert(c.AsFloat(F::kLinear).r == v.r, "the original is unchanged");
}
VC_PROOF(fp, scale) {
  Color c = any(); auto v = c.AsFloat(F::kLinear);
  Color k = c.ScaledToGamut(); auto w = k.AsFloat(F::kLinear);
  vc_assert(valid(k), "scaling keeps every channel a number and alpha in [0, 1]");
  vc_assert(k.IsInGamut() & (k.GetColorSpace() == c.GetColorSpace()) & (w.a == v.a), "scaling gives a colour in gamut");
  vc_assert(vc_implies((v.r <= 1) & (v.g <= 1) & (v.b <= 1), (w.r == (v.r > 0 ? v.r : 0)) & (w.g == (v.g > 0 ? v.g : 0)) & (w.b == (v.b > 0 ? v.b : 0))), "no scaling when no channel exceeds 1");
}
VC_PROOF(real, scale_ratio) {
  Color c = any(); auto v = c.AsFloat(F::kLinear);
  auto w = c.ScaledToGamut().AsFloat(F::kLinear);
  auto p = [](float x) { return x > 0 ? x : 0; };
  float m = std::fmax(p(v.r), std::fmax(p(v.g), p(v.b)));
  vc_assume(m > 1);
  if (vc_mode() == 3) vc_assume(m < 1e6f);
  vc_assert(vc_near(w.r * m, p(v.r), m) & vc_near(w.g * m, p(v.g), m) & vc_near(w.b * m, p(v.b), m), "all channels are scaled by one factor, the largest to 1");
}
VC_PROOF(fp, with_alpha) {
  Color c = any(); auto v = c.AsFloat(F::kLinear); float a = vc_float("alpha");
  Color k = c.WithAlphaFloat(a);
  vc_assert(eq(k.AsFloat(F::kLinear), v.r, v.g, v.b, unit(z(a))) & (k.GetColorSpace() == c.GetColorSpace()), "only alpha is replaced, clamped, NaN as 0");
  vc_assert(c.GetAlphaFloat() == v.a, "the original is unchanged");
}
VC_PROOF(fp, in_color_space) {
  Color c = any(); ColorSpace t = space("t");
  Color k = c.InColorSpace(t);
  vc_assert(valid(k), "conversion never leaves a NaN channel");
  vc_assert((k.GetColorSpace() == t) & (k.GetAlphaFloat() == c.GetAlphaFloat()), "conversion sets the space and keeps alpha");
  vc_assert(vc_implies(t == c.GetColorSpace(), k == c), "conversion to the same space is the identity");
}
VC_PROOF(fp, in_color_space_value) {
  Color c = any(); ColorSpace t = space("t"); auto v = c.AsFloat(F::kLinear);
  auto w = ConvertColor({v.r, v.g, v.b, v.a}, c.GetColorSpace(), t);
  vc_assert(eq(c.InColorSpace(t).AsFloat(F::kLinear), z(w[0]), z(w[1]), z(w[2]), v.a), "the channels are those of ConvertColor");
}
