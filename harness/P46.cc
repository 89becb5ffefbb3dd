// Stroke vertex labels: category and margin survive encoding; interpolation keeps labels and attributes consistent.
// VC-SOURCES: ink/strokes/internal/stroke_vertex.cc ink/geometry/internal/algorithms.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
#include "vc.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink;
using namespace ink::strokes_internal;
using Label = StrokeVertex::Label;
using Side = StrokeVertex::SideCategory;
using Fwd = StrokeVertex::ForwardCategory;
// any label the code can hold: an integer of magnitude up to 127
static Label any_label(const char* n) {
  int16_t k = vc_i16(n);
  vc_assume((k >= -127) & (k <= 127));
  return Label{static_cast<float>(k)};
}
static int sgn(Label l) { return (l.encoded_value > 0) - (l.encoded_value < 0); }
VC_PROOF(fp, categories) {
  Label l{vc_float("encoded")};
  vc_assume(!vc_isnan(l.encoded_value));
  vc_assert(l.DecodeSideCategory() == (l.encoded_value < 0 ? Side::kExteriorLeft : l.encoded_value > 0 ? Side::kExteriorRight : Side::kInterior), "the sign holds the side category");
  vc_assert(l.DecodeForwardCategory() == (l.encoded_value < 0 ? Fwd::kExteriorFront : l.encoded_value > 0 ? Fwd::kExteriorBack : Fwd::kInterior), "the sign holds the forward category");
  vc_assert(l.DerivativeOutsetSign() == static_cast<float>(sgn(l)), "the outset sign points to the exterior");
  Label m{vc_float("other")};
  vc_assert((l == m) == (l.encoded_value == m.encoded_value) && (l != m) == !(l.encoded_value == m.encoded_value), "labels are equal exactly when their encodings are");
}
VC_PROOF(fp, constants) {
  using V = StrokeVertex;
  vc_assert(V::kInteriorLabel.DecodeSideCategory() == Side::kInterior && V::kInteriorLabel.DecodeForwardCategory() == Fwd::kInterior && V::kInteriorLabel.DecodeMargin() == 0, "the interior label is interior");
  vc_assert(V::kExteriorLeftLabel.DecodeSideCategory() == Side::kExteriorLeft && V::kExteriorRightLabel.DecodeSideCategory() == Side::kExteriorRight, "the side labels have their categories");
  vc_assert(V::kExteriorFrontLabel.DecodeForwardCategory() == Fwd::kExteriorFront && V::kExteriorBackLabel.DecodeForwardCategory() == Fwd::kExteriorBack, "the forward labels have their categories");
  const Label all[] = {V::kExteriorLeftLabel, V::kExteriorRightLabel, V::kExteriorFrontLabel, V::kExteriorBackLabel};
  bool ok = true;
  for (Label l : all) ok = ok && l.DecodeMargin() == V::kMaximumMargin && l.WithMargin(V::kMaximumMargin) == l;
  vc_assert(ok, "the exterior labels carry the maximum margin");
  vc_assert(V::kExteriorLeftLabel != V::kExteriorRightLabel && V::kExteriorFrontLabel != V::kExteriorBackLabel, "labels of opposite sides differ");
  vc_assert(V::kMaximumMargin == 4, "the maximum margin is the documented one");
}
VC_PROOF(fp, with_margin_category) {
  Label l{vc_float("encoded")};
  vc_assume(!vc_isnan(l.encoded_value));
  float m = vc_float("margin");
  vc_assume(!vc_isnan(m));
  Label r = l.WithMargin(m);
  vc_assert(sgn(r) == sgn(l), "a new margin keeps the category");
  float e = r.encoded_value < 0 ? -r.encoded_value : r.encoded_value;
  vc_assert(sgn(l) == 0 || ((e >= 1) & (e <= 127)), "an encoded margin fits the label");
  vc_assert(sgn(l) == 0 || e == static_cast<float>(static_cast<int>(e)), "an encoded margin is an integer");
}
VC_PROOF(fp, interior_has_no_margin) {
  Label l{0};
  float m = vc_float("margin");
  vc_assert(l.WithMargin(m).encoded_value == 0 && l.WithMargin(m).DecodeMargin() == 0, "interior labels have no margin");
}
// resolution: 126 steps over [0, 4]
constexpr double kStep = 4.0 / 126;
VC_PROOF(fp, margin_resolution) {
  Label l{vc_bool("right") ? 127.f : -127.f};
  float m = vc_float("margin");
  vc_assume((m >= 0) & (m <= StrokeVertex::kMaximumMargin));
  float d = l.WithMargin(m).DecodeMargin();
  vc_assert((d <= m + 1e-5) & (d >= m - kStep - 1e-5), "a margin is encoded within one step of the resolution, rounded down");
}
VC_PROOF(fp, margin_clamped) {
  Label l{vc_bool("right") ? 127.f : -127.f};
  float m = vc_float("margin");
  vc_assume((m <= 0) | (m >= StrokeVertex::kMaximumMargin));
  vc_assert(l.WithMargin(m).DecodeMargin() == (m <= 0 ? 0.f : StrokeVertex::kMaximumMargin), "margins outside the encodable range are clamped exactly");
}
VC_PROOF(fp, decode_linear) {
  int k = vc_choose("code", 1, 127);
  bool right = vc_bool("right");
  Label l{right ? static_cast<float>(k) : -static_cast<float>(k)};
  vc_assert(vc_within(l.DecodeMargin(), (k - 1) * kStep, 1e-6), "every code decodes to its margin");
}
static StrokeVertex::NonPositionAttributes attrs(const char*) {
  StrokeVertex::NonPositionAttributes a;
  auto f = [](const char* n) { float x = vc_float(n); vc_assume((x >= -1e30f) & (x <= 1e30f)); return x; };
  a.opacity_shift = f("op");
  a.hsl_shift = {f("h"), f("s"), f("l")};
  a.side_derivative = {f("sx"), f("sy")};
  a.side_label = any_label("side");
  a.forward_derivative = {f("fx"), f("fy")};
  a.forward_label = any_label("forward");
  a.surface_uv = {f("u"), f("v")};
  return a;
}
static Label full(Label l) { return Label{sgn(l) * 127.f}; }
static Label lerp_label(Label a, Label b, float t) { return sgn(a) == sgn(b) || t <= 0 ? full(a) : t >= 1 ? full(b) : Label{0}; }
static bool no_derivatives(const StrokeVertex::NonPositionAttributes& a) {
  return (a.side_derivative.x == 0) & (a.side_derivative.y == 0) & (a.forward_derivative.x == 0) & (a.forward_derivative.y == 0);
}
VC_PROOF(fp, lerp_labels) {
  auto a = attrs("a"), b = attrs("b");
  float t = vc_float("t");
  vc_assume(vc_finite(t));
  auto r = Lerp(a, b, t);
  vc_assert(r.side_label == lerp_label(a.side_label, b.side_label, t), "an interpolated side label is that of an end point or interior");
  vc_assert(r.forward_label == lerp_label(a.forward_label, b.forward_label, t), "an interpolated forward label is that of an end point or interior");
  vc_assert(no_derivatives(r), "interpolation resets the derivatives");
}
VC_PROOF(fp, lerp_start) {
  auto a = attrs("a"), b = attrs("b");
  auto r = Lerp(a, b, 0);
  vc_assert((r.opacity_shift == a.opacity_shift) & (r.hsl_shift[0] == a.hsl_shift[0]) & (r.hsl_shift[1] == a.hsl_shift[1]) & (r.hsl_shift[2] == a.hsl_shift[2]) &
            (r.surface_uv.x == a.surface_uv.x) & (r.surface_uv.y == a.surface_uv.y), "interpolation starts at the first attributes");
}
VC_PROOF(real, lerp_values) {
  auto a = attrs("a"), b = attrs("b");
  float t = vc_float("t");
  auto r = Lerp(a, b, t);
  auto w = [&](float x, float y) { return (1 - t) * x + t * y; };
  float s = 2e30f * (1 + std::abs(t));
  vc_assert(vc_near(r.opacity_shift, w(a.opacity_shift, b.opacity_shift), s), "opacity is interpolated linearly");
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(r.hsl_shift[i], w(a.hsl_shift[i], b.hsl_shift[i]), s), "each colour shift is interpolated linearly");
  vc_assert(vc_near(r.surface_uv.x, w(a.surface_uv.x, b.surface_uv.x), s) && vc_near(r.surface_uv.y, w(a.surface_uv.y, b.surface_uv.y), s), "texture coordinates are interpolated linearly");
}
VC_PROOF(fp, barycentric_labels) {
  auto a = attrs("a"), b = attrs("b"), c = attrs("c");
  int zero = vc_choose("zero", 0, 3);  // the coordinate that is zero (3: none)
  std::array<float, 3> t = {vc_float("t0"), vc_float("t1"), vc_float("t2")};
  for (int i = 0; i < 3; ++i) {
    vc_assume((t[i] > -1e30f) & (t[i] < 1e30f) & (t[i] != 0));
    if (i == zero) t[i] = 0;
  }
  auto r = BarycentricLerp(a, b, c, t);
  auto expect = [&](Label x, Label y, Label z) { return zero == 0 ? lerp_label(y, z, t[2]) : zero == 1 ? lerp_label(x, z, t[2]) : zero == 2 ? lerp_label(x, y, t[1]) : Label{0}; };
  vc_assert(r.side_label == expect(a.side_label, b.side_label, c.side_label), "on an edge the side label is interpolated along the edge, elsewhere it is interior");
  vc_assert(r.forward_label == expect(a.forward_label, b.forward_label, c.forward_label), "on an edge the forward label is interpolated along the edge, elsewhere it is interior");
  vc_assert(no_derivatives(r), "interpolation resets the derivatives");
}
VC_PROOF(real, barycentric_values) {
  auto a = attrs("a"), b = attrs("b"), c = attrs("c");
  std::array<float, 3> t = {vc_float("t0"), vc_float("t1"), vc_float("t2")};
  auto r = BarycentricLerp(a, b, c, t);
  auto w = [&](float x, float y, float z) { return x * t[0] + y * t[1] + z * t[2]; };
  float s = 3e30f * (1 + std::abs(t[0]) + std::abs(t[1]) + std::abs(t[2]));
  vc_assert(vc_near(r.opacity_shift, w(a.opacity_shift, b.opacity_shift, c.opacity_shift), s), "opacity is the weighted sum");
  for (int i = 0; i < 3; ++i) vc_assert(vc_near(r.hsl_shift[i], w(a.hsl_shift[i], b.hsl_shift[i], c.hsl_shift[i]), s), "each colour shift is the weighted sum");
  vc_assert(vc_near(r.surface_uv.x, w(a.surface_uv.x, b.surface_uv.x, c.surface_uv.x), s) && vc_near(r.surface_uv.y, w(a.surface_uv.y, b.surface_uv.y, c.surface_uv.y), s), "texture coordinates are the weighted sum");
}
VC_PROOF(fp, equality) {
  auto a = attrs("a"), b = attrs("b");
  bool same = (a.opacity_shift == b.opacity_shift) & (a.hsl_shift[0] == b.hsl_shift[0]) & (a.hsl_shift[1] == b.hsl_shift[1]) & (a.hsl_shift[2] == b.hsl_shift[2]) &
              (a.side_derivative.x == b.side_derivative.x) & (a.side_derivative.y == b.side_derivative.y) & (a.side_label.encoded_value == b.side_label.encoded_value) &
              (a.forward_derivative.x == b.forward_derivative.x) & (a.forward_derivative.y == b.forward_derivative.y) & (a.forward_label.encoded_value == b.forward_label.encoded_value) &
              (a.surface_uv.x == b.surface_uv.x) & (a.surface_uv.y == b.surface_uv.y);
  vc_assert((a == b) == same, "attributes are equal exactly when all of them are");
}
