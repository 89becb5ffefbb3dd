// Brush tips and easing functions: accepted exactly when every documented range holds; equality compares every field.
// VC-SOURCES: ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc ink/types/uri.cc
// VC-OPT: max_iter=64 nomerge=1 max_states=4000
// VC-BOUND: Linear easing functions with up to 4 points; the number of points is the only bound
#include "vc.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
#include "ink/geometry/angle.h"
#include "ink/types/duration.h"
using namespace ink;
using brush_internal::ValidateBrushTip;
using brush_internal::ValidateEasingFunction;
using EF = EasingFunction;
static bool in(float x, float lo, float hi) { return (x >= lo) & (x <= hi); }
static bool nonneg(float x) { return vc_finite(x) & (x >= 0); }
static bool prob(float x) { return in(x, 0, 1); }
constexpr float kHalfPi = 1.57079637f;  // the float nearest pi/2

static BrushTip some_tip(const char* p) {
  auto f = [&](const char* n) { return vc_float(n); };
  BrushTip t;
  t.scale = {f("sx"), f("sy")};
  t.corner_rounding = f("round");
  t.slant = Angle::Radians(f("slant"));
  t.pinch = f("pinch");
  t.rotation = Angle::Radians(f("rot"));
  t.opacity_multiplier = f("op");
  t.particle_gap_distance_scale = f("gap");
  float s = f("dur");
  vc_assume(!vc_isnan(s));
  t.particle_gap_duration = Duration32::Seconds(s);
  return t;
}
VC_PROOF(fp, tip) {
  BrushTip t = some_tip("");
  bool legal = nonneg(t.scale.x) & nonneg(t.scale.y) & ((t.scale.x > 0) | (t.scale.y > 0)) & prob(t.corner_rounding) &
               in(t.slant.ValueInRadians(), -kHalfPi, kHalfPi) & prob(t.pinch) & vc_finite(t.rotation.ValueInRadians()) &
               in(t.opacity_multiplier, 0, 2) & nonneg(t.particle_gap_distance_scale) & nonneg(t.particle_gap_duration.ToSeconds());
  vc_assert(ValidateBrushTip(t).ok() == legal, "a tip is accepted exactly when every parameter is in its documented range");
}
VC_PROOF(fp, tip_default) {
  BrushTip t;
  vc_assert(ValidateBrushTip(t).ok(), "the default tip is accepted");
  vc_assert(t == BrushTip(), "default tips are equal");
}
// a tip with an invalid behavior is invalid, whatever its position
VC_PROOF(fp, tip_behaviors) {
  BrushTip t;
  int n = vc_choose("n", 1, 3), bad = vc_choose("bad", 0, 3);
  float v = vc_float("v");
  for (int i = 0; i < n; ++i) {
    BrushBehavior b;
    b.nodes.push_back(BrushBehavior::ConstantNode{.value = i == bad ? v : 1.f});
    b.nodes.push_back(BrushBehavior::TargetNode{.target = BrushBehavior::Target::kPinchOffset, .target_modifier_range = {0, 1}});
    t.behaviors.push_back(b);
  }
  vc_assert(ValidateBrushTip(t).ok() == (vc_finite(v) | (bad >= n)), "a tip is accepted exactly when all its behaviors are");
}
VC_PROOF(fp, tip_equality) {
  BrushTip a = some_tip("a"), b = some_tip("b");
  bool same = (a.scale.x == b.scale.x) & (a.scale.y == b.scale.y) & (a.corner_rounding == b.corner_rounding) &
              (a.slant.ValueInRadians() == b.slant.ValueInRadians()) & (a.pinch == b.pinch) &
              (a.rotation.ValueInRadians() == b.rotation.ValueInRadians()) & (a.opacity_multiplier == b.opacity_multiplier) &
              (a.particle_gap_distance_scale == b.particle_gap_distance_scale) &
              (a.particle_gap_duration.ToSeconds() == b.particle_gap_duration.ToSeconds());
  vc_assert((a == b) == same, "tips are equal exactly when all their parameters are");
  vc_assert((a != b) == !same, "inequality is the negation of equality");
  BrushTip c;
  BrushTip d = c;
  d.behaviors.emplace_back();
  vc_assert(c != d, "tips with different behaviors differ");
}
VC_PROOF(fp, easing_predefined) {
  EF e;
  vc_assert(ValidateEasingFunction(e).ok(), "the default easing function is accepted");
  int v = vc_i32("value");
  e.parameters = static_cast<EF::Predefined>(v);
  vc_assert(ValidateEasingFunction(e).ok() == ((v >= 0) & (v <= static_cast<int>(EF::Predefined::kStepEnd))),
            "a predefined easing function is accepted exactly when it is an enumerator");
}
VC_PROOF(fp, easing_bezier) {
  EF::CubicBezier c{vc_float("x1"), vc_float("y1"), vc_float("x2"), vc_float("y2")};
  EF e{c};
  vc_assert(ValidateEasingFunction(e).ok() == (prob(c.x1) & prob(c.x2) & vc_finite(c.y1) & vc_finite(c.y2)),
            "a Bezier easing function is accepted exactly for finite values and x in [0,1]");
  EF::CubicBezier d{vc_float("x1'"), vc_float("y1'"), vc_float("x2'"), vc_float("y2'")};
  bool same = (c.x1 == d.x1) & (c.y1 == d.y1) & (c.x2 == d.x2) & (c.y2 == d.y2);
  vc_assert((c == d) == same && (c != d) == !same && (EF{c} == EF{d}) == same, "Bezier easing functions are equal exactly when all values are");
}
VC_PROOF(fp, easing_steps) {
  EF::Steps s{vc_i32("count"), static_cast<EF::StepPosition>(vc_i32("position"))};
  int p = static_cast<int>(s.step_position);
  bool none = s.step_position == EF::StepPosition::kJumpNone;
  vc_assert(ValidateEasingFunction(EF{s}).ok() == ((p >= 0) & (p <= 3) & (s.step_count >= 1) & !(none & (s.step_count < 2))),
            "a step easing function is accepted exactly for a known position and enough steps");
  EF::Steps t{vc_i32("count'"), static_cast<EF::StepPosition>(vc_i32("position'"))};
  bool same = (s.step_count == t.step_count) & (s.step_position == t.step_position);
  vc_assert((s == t) == same && (s != t) == !same && (EF{s} == EF{t}) == same, "step easing functions are equal exactly when both parameters are");
}
VC_PROOF(fp, easing_linear) {
  int n = vc_choose("n", 0, 4);
  EF::Linear l;
  bool legal = true;
  float prev = 0;
  for (int i = 0; i < n; ++i) {
    Point p{vc_float("x"), vc_float("y")};
    legal = legal & prob(p.x) & vc_finite(p.y) & (p.x >= prev);
    prev = p.x;
    l.points.push_back(p);
  }
  vc_assert(ValidateEasingFunction(EF{l}).ok() == legal, "a linear easing function is accepted exactly for finite points with non-decreasing x in [0,1]");
}
VC_PROOF(fp, easing_linear_equality) {
  int n = vc_choose("n", 0, 2), m = vc_choose("m", 0, 2);
  EF::Linear a, b;
  bool same = n == m;
  for (int i = 0; i < n; ++i) a.points.push_back({vc_float("x"), vc_float("y")});
  for (int i = 0; i < m; ++i) b.points.push_back({vc_float("x'"), vc_float("y'")});
  for (int i = 0; i < n && i < m; ++i) same = same & (a.points[i].x == b.points[i].x) & (a.points[i].y == b.points[i].y);
  vc_assert((a == b) == same && (a != b) == !same && (EF{a} == EF{b}) == same, "linear easing functions are equal exactly when their points are");
  vc_assert(EF{a} != EF{EF::Predefined::kLinear} && EF{a} != EF{EF::Steps{1, EF::StepPosition::kJumpEnd}}, "easing functions of different kinds differ");
}
