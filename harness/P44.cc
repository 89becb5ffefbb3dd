// Easing functions: linear and step curves by definition, end points, no NaN from a number.
// VC-SOURCES: ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/geometry/internal/algorithms.cc ink/geometry/angle.cc ink/geometry/vec.cc
// VC-OPT: max_iter=64 nomerge=1 joinequal=1 max_states=4000
// VC-BOUND: Linear easing functions with up to 3 points (all coordinates and parameters symbolic); step functions are proved for every step count
#include "vc.h"
#include "ink/brush/easing_function.h"
#include "ink/strokes/internal/easing_implementation.h"
using namespace ink;
using EF = EasingFunction;
using strokes_internal::EasingImplementation;

VC_PROOF(fp, identity) {
  float x = vc_float("x");
  vc_assert(vc_same(EasingImplementation(EF{}).GetY(x), x), "the linear easing function is the identity");
  vc_assert(vc_same(EasingImplementation(EF{EF::Linear{}}).GetY(0.f), 0.f), "a linear easing function without points maps 0 to 0");
  vc_assert(vc_same(EasingImplementation(EF{EF::Linear{}}).GetY(1.f), 1.f), "a linear easing function without points maps 1 to 1");
}

// ---- steps
static EasingImplementation steps(int n, int pos) { return EasingImplementation(EF{EF::Steps{n, static_cast<EF::StepPosition>(pos)}}); }
static void steps_real(int pos) {
  auto p = static_cast<EF::StepPosition>(pos);
  int n = vc_count("n"), k = vc_count("k");
  vc_assume(n >= (p == EF::StepPosition::kJumpNone ? 2 : 1) && n <= 1000000 && k >= 0 && k < n);
  float x = vc_float("x"), nf = n, kf = k;
  vc_assume(kf <= nf * x && nf * x < kf + 1);  // x lies in step k
  float step = std::floor(nf * x);
  vc_assert(vc_near(step, kf, nf), "lemma: the parameter lies in step k");
  float y = steps(n, pos).GetY(x);
  float up = p == EF::StepPosition::kJumpStart || p == EF::StepPosition::kJumpBoth ? kf + 1 : kf;
  float of = p == EF::StepPosition::kJumpNone ? nf - 1 : p == EF::StepPosition::kJumpBoth ? nf + 1 : nf;
  vc_assert(vc_near(y, up / of, 1), "a step function has the documented value on every step");
}
VC_PROOF(real, steps_end) { steps_real(0); }
VC_PROOF(real, steps_start) { steps_real(1); }
VC_PROOF(real, steps_both) { steps_real(2); }
VC_PROOF(real, steps_none) { steps_real(3); }
VC_PROOF(fp, steps_outside) {
  int pos = vc_choose("position", 0, 3), n = vc_i32("n");
  vc_assume(n >= (static_cast<EF::StepPosition>(pos) == EF::StepPosition::kJumpNone ? 2 : 1));
  float x = vc_float("x");
  vc_assume(!(x >= 0 && x < 1));
  float y = steps(n, pos).GetY(x);
  vc_assert(vc_isnan(x) ? vc_isnan(y) : x < 0 ? y == 0 : y == 1, "a step function is 0 below 0, 1 from 1 on, and NaN only for NaN");
}
VC_PROOF(fp, predefined_steps) {
  float x = vc_float("x");
  vc_assume(!vc_isnan(x));
  EF s, e;
  s.parameters = EF::Predefined::kStepStart;
  e.parameters = EF::Predefined::kStepEnd;
  vc_assert(EasingImplementation(s).GetY(x) == (x < 0 ? 0 : 1), "step-start jumps at 0");
  vc_assert(EasingImplementation(e).GetY(x) == (x < 1 ? 0 : 1), "step-end jumps at 1");
}

// ---- piecewise linear
struct Curve { int n; Point p[8]; EF e; };  // with the implicit end points
static Curve curve(float max_y) {
  Curve c;
  int n = vc_choose("points", 0, 3);
  c.n = n + 2;
  c.p[0] = {0, 0};
  EF::Linear l;
  for (int i = 1; i <= n; ++i) {
    c.p[i] = {vc_float("x"), vc_float("y")};
    vc_assume(c.p[i].x >= c.p[i - 1].x && c.p[i].x <= 1 && c.p[i].y >= -max_y && c.p[i].y <= max_y);
    l.points.push_back(c.p[i]);
  }
  c.p[n + 1] = {1, 1};
  c.e.parameters = l;
  return c;
}
VC_PROOF(real, linear_between) {
  Curve c = curve(1e30f);
  float x = vc_float("x");
  int j = vc_choose("segment", 0, c.n - 2);
  vc_assume(c.p[j].x <= x && x < c.p[j + 1].x);
  float y = EasingImplementation(c.e).GetY(x);
  Point a = c.p[j], b = c.p[j + 1];
  float t = (x - a.x) / (b.x - a.x);
  vc_assert(vc_near(y, a.y + (b.y - a.y) * t, 1 + std::abs(a.y) + std::abs(b.y)), "between two points the value is interpolated linearly");
}
VC_PROOF(fp, linear_at) {
  Curve c = curve(1e38f);
  int j = vc_choose("point", 0, c.n - 2);
  vc_assume(c.p[j].x < c.p[j + 1].x);  // the last point at its x
  float y = EasingImplementation(c.e).GetY(c.p[j].x);
  vc_assert(y == c.p[j].y, "at a point the value is exactly that of the last point with this x, and 0 maps to 0 otherwise");
}
VC_PROOF(real, linear_end) {
  Curve c = curve(1e30f);
  float y = EasingImplementation(c.e).GetY(1.f);
  vc_assert(vc_near(y, 1, 2 + std::abs(c.p[c.n - 2].y)), "1 maps to 1");
}
VC_PROOF(real, linear_outside) {
  Curve c = curve(1e30f);
  float x = vc_float("x");
  int high = vc_choose("high", 0, 1);
  Point a = high ? c.p[c.n - 2] : c.p[0], b = high ? c.p[c.n - 1] : c.p[1];
  vc_assume(a.x < b.x && (high ? x > 1 : x < 0));
  float y = EasingImplementation(c.e).GetY(x);
  float t = (x - a.x) / (b.x - a.x);
  vc_assert(vc_near(y, a.y + (b.y - a.y) * t, 1 + std::abs(y)), "outside [0,1] the first or last segment is extrapolated");
}
VC_PROOF(fp, linear_nan) {
  Curve c = curve(1e38f);
  vc_assert(vc_isnan(EasingImplementation(c.e).GetY(VC_NAN)), "NaN maps to NaN");
}

