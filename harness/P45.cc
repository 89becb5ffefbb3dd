// Tip states: every modelled property stays in its documented range.
// VC-SOURCES: ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/brush/brush_tip.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/geometry/internal/algorithms.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/segment.cc ink/types/duration.cc ink/types/physical_distance.cc
// VC-BOUND: tip states with up to three behaviour targets
#include "geo.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink::strokes_internal;
using T = BrushBehavior::Target;
static const float k2Pi = 6.28318530717959f, kHalfPi = 1.57079632679489f;
static BrushTip any_tip() {
  BrushTip t;
  t.scale = {fin("sx"), fin("sy")};
  t.corner_rounding = fin("cr");
  t.slant = Angle::Radians(fin("slant"));
  t.pinch = fin("pinch");
  t.rotation = Angle::Radians(fin("rotation"));
  t.opacity_multiplier = fin("opacity");
  vc_assume((t.scale.x >= 0) & (t.scale.y >= 0) & (t.corner_rounding >= 0) & (t.corner_rounding <= 1) & (t.slant.ValueInRadians() >= -kHalfPi) & (t.slant.ValueInRadians() <= kHalfPi) &
            (t.pinch >= 0) & (t.pinch <= 1) & (t.opacity_multiplier >= 0) & (t.opacity_multiplier <= 2));
  return t;
}
static bool in(float x, float lo, float hi) { return (lo <= x) & (x <= hi); }
static void ranges(int n) {
  BrushTip tip = any_tip();
  float size = fin("size");
  vc_assume((size > 0) & (size < 1e18f) & (tip.scale.x < 1e18f) & (tip.scale.y < 1e18f));
  T targets[3];
  float mods[3];
  for (int i = 0; i < n; ++i) {
    uint8_t k = vc_u8("target");
    vc_assume(k <= static_cast<uint8_t>(T::kOpacityMultiplier));
    targets[i] = static_cast<T>(k);
    mods[i] = fin("modifier");
  }
  BrushTipState s = CreateTipState({0, 0}, std::nullopt, tip, size, absl::Span<const T>(targets, n), absl::Span<const float>(mods, n));
  vc_assert((s.width >= 0) & (s.height >= 0), "sizes are not negative");
  vc_assert(in(s.percent_radius, 0, 1), "corner rounding lies in [0,1]");
  vc_assert(in(s.slant.ValueInRadians(), -kHalfPi, kHalfPi), "slant lies within a quarter turn");
  vc_assert(in(s.pinch, 0, 1), "pinch lies in [0,1]");
  vc_assert((s.hue_offset_in_full_turns >= 0) & (s.hue_offset_in_full_turns < 1), "the hue offset lies within a full turn");
  vc_assert(in(s.saturation_multiplier, 0, 2), "saturation lies in [0,2]");
  vc_assert(in(s.luminosity_shift, -1, 1), "luminosity lies in [-1,1]");
  vc_assert(in(s.opacity_multiplier, 0, 2), "opacity lies in [0,2]");
  vc_assert(vc_finite(s.rotation.ValueInRadians()), "rotation is finite");
}
// What the state is: the tip's values, changed by the combination of the modifiers of each target, limited to its range.
static float clampf(float x, float lo, float hi) { return x < lo ? lo : x > hi ? hi : x; }
static float mod(const char* n) { float f = fin(n); vc_assume((std::fabs(f) < 1000) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
static void combination(int a, int b) {
  BrushTip tip = any_tip();
  float size = mod("size");
  vc_assume((size > 0) & (tip.scale.x < 1000) & (tip.scale.y < 1000) & (std::fabs(tip.rotation.ValueInRadians()) < 1000));
  T targets[2] = {static_cast<T>(a), static_cast<T>(b)};
  float mods[2] = {mod("m"), mod("m")}, dir = mod("direction");
  bool has_dir = vc_split(vc_bool("has_direction"));
  Point at{mod("x"), mod("y")};
  BrushTipState s = CreateTipState(at, has_dir ? std::optional<Angle>(Angle::Radians(dir)) : std::nullopt, tip, size, absl::Span<const T>(targets, 2), absl::Span<const float>(mods, 2));
  float w = 1, h = 1, slant = 0, pinch = 0, round = 0, sat = 1, lum = 0, op = 1, dx = 0, dy = 0;
  for (int i = 0; i < 2; ++i) {
    T t = targets[i];
    float m = mods[i];
    if (t == T::kWidthMultiplier || t == T::kSizeMultiplier) w = w * m;
    if (t == T::kHeightMultiplier || t == T::kSizeMultiplier) h = h * m;
    if (t == T::kSlantOffsetInRadians) slant = slant + m;
    if (t == T::kPinchOffset) pinch = pinch + m;
    if (t == T::kCornerRoundingOffset) round = round + m;
    if (t == T::kSaturationMultiplier) sat = sat * m;
    if (t == T::kLuminosity) lum = lum + m;
    if (t == T::kOpacityMultiplier) op = op * m;
    if (t == T::kPositionOffsetXInMultiplesOfBrushSize) dx = dx + m * size;
    if (t == T::kPositionOffsetYInMultiplesOfBrushSize) dy = dy + m * size;
    if (t == T::kPositionOffsetForwardInMultiplesOfBrushSize && has_dir) dx = dx + std::cos(dir) * (m * size), dy = dy + std::sin(dir) * (m * size);
    if (t == T::kPositionOffsetLateralInMultiplesOfBrushSize && has_dir) {
      float side = (Angle::Radians(dir) + kQuarterTurn).ValueInRadians();
      dx = dx + std::cos(side) * (m * size), dy = dy + std::sin(side) * (m * size);
    }
  }
  float rot = 0, hue = 0;
  for (int i = 0; i < 2; ++i) {
    if (targets[i] == T::kRotationOffsetInRadians) rot = rot + mods[i];
    if (targets[i] == T::kHueOffsetInRadians) hue = hue + mods[i];
  }
  const float S = 1e6f;
  auto turned = [](float r) { return Angle::Radians(r).Normalized().ValueInRadians(); };
  float r0 = tip.rotation.ValueInRadians();
  float want_rot = rot == 0 ? r0 : turned(r0 + rot), want_hue = hue == 0 ? 0 : turned(hue) / k2Pi;
  vc_assert(vc_near(s.rotation.ValueInRadians(), want_rot, S), "rotation offsets add up, in full turns");
  vc_assert(vc_within(s.hue_offset_in_full_turns, want_hue, 1e-4), "hue offsets add up, in full turns");
  float sw = size * tip.scale.x, sh = size * tip.scale.y;
  vc_assert(vc_near(s.width, sw * clampf(w, 0, 2), S), "the width is multiplied");
  vc_assert(vc_near(s.height, sh * clampf(h, 0, 2), S), "the height is multiplied");
  vc_assert((s.width <= 2 * sw) & (s.height <= 2 * sh), "sizes at most double");
  vc_assert(vc_near(s.slant.ValueInRadians(), clampf(tip.slant.ValueInRadians() + slant, -kHalfPi, kHalfPi), S), "slant offsets add up");
  vc_assert(vc_near(s.pinch, clampf(tip.pinch + pinch, 0, 1), S), "pinch offsets add up");
  vc_assert(vc_near(s.percent_radius, clampf(tip.corner_rounding + round, 0, 1), S), "corner rounding offsets add up");
  vc_assert(vc_near(s.saturation_multiplier, clampf(sat, 0, 2), S), "saturation is multiplied");
  vc_assert(vc_near(s.luminosity_shift, clampf(lum, -1, 1), S), "luminosity shifts add up");
  vc_assert(vc_near(s.opacity_multiplier, clampf(tip.opacity_multiplier * op, 0, 2), S), "opacity is multiplied");
  vc_assert(vc_near(s.position.x, at.x + dx, S) & vc_near(s.position.y, at.y + dy, S), "position offsets add up");
}
// Targets are combined one by one, so pairs of one target and pairs with a neighbour cover their interaction.
#define PAIR(A, B) VC_PROOF(real, combination_##A##_##B) { combination(A, B); }
PAIR(0, 0)
PAIR(0, 1)
PAIR(1, 1)
PAIR(1, 2)
PAIR(2, 0)
PAIR(2, 2)
PAIR(2, 3)
PAIR(3, 3)
PAIR(3, 4)
PAIR(4, 4)
PAIR(4, 5)
PAIR(5, 5)
PAIR(5, 6)
PAIR(6, 6)
PAIR(6, 7)
PAIR(7, 7)
PAIR(7, 8)
PAIR(8, 8)
PAIR(8, 9)
PAIR(8, 10)
PAIR(9, 9)
PAIR(9, 10)
PAIR(10, 10)
PAIR(10, 11)
PAIR(11, 11)
PAIR(11, 12)
PAIR(12, 12)
PAIR(12, 13)
PAIR(13, 13)
PAIR(13, 14)
PAIR(14, 0)
PAIR(14, 14)
VC_PROOF(fp, ranges_0) { ranges(0); }
VC_PROOF(fp, ranges_1) { ranges(1); }
VC_PROOF(fp, ranges_2) { ranges(2); }
VC_PROOF(fp, ranges_3) { ranges(3); }
