// Bezier easing functions: tabulated values lie on the curve, values between them are interpolated, never NaN for a number.
// VC-SOURCES: ink/strokes/internal/easing_implementation.cc ink/brush/easing_function.cc ink/geometry/internal/algorithms.cc ink/geometry/angle.cc ink/geometry/vec.cc
// VC-OPT: max_iter=120 nomerge=1 joinequal=1 max_states=4000
// VC-BOUND: custom Bezier curves on a 5x5 grid of control point x (control point y and the parameter symbolic)
#include "vc.h"
#include "ink/brush/easing_function.h"
#include "ink/strokes/internal/easing_implementation.h"
using namespace ink;
using EF = EasingFunction;
using strokes_internal::EasingImplementation;
static double bez(double a, double b, double t) { return 3 * (1 - t) * (1 - t) * t * a + 3 * (1 - t) * t * t * b + t * t * t; }
// curve parameter at x, by bisection
static double at(double x1, double x2, double x) {
  double lo = 0, hi = 1;
  for (int i = 0; i < 40; ++i) {
    double m = (lo + hi) / 2;
    if (bez(x1, x2, m) < x) lo = m; else hi = m;
  }
  return (lo + hi) / 2;
}
struct Named { EF::Predefined kind; double x1, y1, x2, y2; };
// https://www.w3.org/TR/css-easing-1/#cubic-bezier-easing-functions
static const Named kNamed[] = {{EF::Predefined::kEase, 0.25, 0.1, 0.25, 1}, {EF::Predefined::kEaseIn, 0.42, 0, 1, 1},
                               {EF::Predefined::kEaseOut, 0, 0, 0.58, 1}, {EF::Predefined::kEaseInOut, 0.42, 0, 0.58, 1}};
static void named(int i) {
  EF e;
  e.parameters = kNamed[i].kind;
  EasingImplementation b(e);
  float x = vc_float("x");
  int k = vc_choose("cell", 0, 15) - 2;
  if (k == -2) {
    vc_assume(vc_isnan(x));
    vc_assert(vc_isnan(b.GetY(x)), "NaN maps to NaN");
    return;
  }
  if (k == -1) {
    vc_assume(x <= 0);
    vc_assert(b.GetY(x) == 0, "a predefined curve is 0 up to 0");
    return;
  }
  if (k == 13) {
    vc_assume(x >= 1);
    vc_assert(vc_within(b.GetY(x), 1, 1e-5), "a predefined curve is 1 from 1 on");
    return;
  }
  vc_assume(x >= k / 13.0f && x <= (k + 1) / 13.0f);
  double y0 = bez(kNamed[i].y1, kNamed[i].y2, at(kNamed[i].x1, kNamed[i].x2, k / 13.0));
  double y1 = bez(kNamed[i].y1, kNamed[i].y2, at(kNamed[i].x1, kNamed[i].x2, (k + 1) / 13.0));
  float y = b.GetY(x);
  vc_assert(y >= y0 - 2e-3 && y <= y1 + 2e-3, "a predefined curve rises along the Bezier curve that defines it");
}
VC_PROOF(fp, ease) { named(0); }
VC_PROOF(fp, ease_in) { named(1); }
VC_PROOF(fp, ease_out) { named(2); }
VC_PROOF(fp, ease_in_out) { named(3); }
// every curve over a grid of control point x; y anything
static void follow(float x1, float y1, float x2, float y2, float end) {
  EasingImplementation b(EF{EF::CubicBezier{x1, y1, x2, y2}});
  float scale = 1 + std::abs(y1) + std::abs(y2);
  for (int k = 0; k <= 13; ++k) {
    double t = at(x1, x2, k / 13.0), a1 = 3 * (1 - t) * (1 - t) * t, a2 = 3 * (1 - t) * t * t;
    float y = b.GetY(k / 13.0f), want = static_cast<float>(a1) * y1 + static_cast<float>(a2) * y2 + static_cast<float>(t * t * t);
    vc_assert(vc_within(y, want, 0.03f * scale), "a Bezier easing function follows its curve");
  }
  vc_assert(vc_within(b.GetY(1.5f), 1, end * scale) && vc_within(b.GetY(-0.5f), 0, 0), "a Bezier easing function is constant outside [0,1]");
}
static void grid(int i) {
  int j = vc_choose("x2", 0, 3);
  float y1 = vc_float("y1"), y2 = vc_float("y2");
  vc_assume(y1 >= -1e30f && y1 <= 1e30f && y2 >= -1e30f && y2 <= 1e30f);
  follow(i / 4.0f, y1, j / 4.0f, y2, 0.01f);
}
// IEEE rounding is what ends the tabulation of curves that are vertical at their end
VC_PROOF(fp, grid_exact) {
  int i = vc_choose("x1", 0, 4), j = vc_choose("x2", 0, 4);
  follow(i / 4.0f, 0.25f, j / 4.0f, 0.8125f, 1e-5f);
}
VC_PROOF(fp, grid_exact2) {
  int i = vc_choose("x1", 0, 4), j = vc_choose("x2", 0, 4);
  follow(i / 4.0f, 1.75f, j / 4.0f, -0.5f, 1e-5f);
}
VC_PROOF(real, grid0) { grid(0); }
VC_PROOF(real, grid1) { grid(1); }
VC_PROOF(real, grid2) { grid(2); }
VC_PROOF(real, grid3) { grid(3); }
VC_PROOF(real, grid4) { grid(4); }
// no NaN from numbers, whatever the control points are
VC_PROOF(fp, bezier_outside) {
  EF e;
  e.parameters = EF::CubicBezier{0.25f, vc_finite_float("y1"), 0.75f, vc_finite_float("y2")};
  EasingImplementation b(e);
  float x = vc_float("x");
  float y = b.GetY(x);
  vc_assert(!vc_isnan(x) | vc_isnan(y), "NaN maps to NaN");
  vc_assert(!(x <= 0) | (y == 0), "a Bezier easing function is 0 up to 0");
}
