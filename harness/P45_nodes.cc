// Behaviour nodes: sources, out-of-range rule, filters, damping, operators, targets.
// VC-SOURCES: ink/strokes/internal/brush_tip_modeler_helpers.cc ink/strokes/internal/brush_tip_state.cc ink/strokes/internal/easing_implementation.cc ink/brush/brush_tip.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/geometry/internal/algorithms.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/geometry/segment.cc ink/types/duration.cc ink/types/physical_distance.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=4000
// VC-BOUND: behaviour programs are run node by node over a stack of up to four values, damping and target arrays of two entries
#include "geo.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink::strokes_internal;
using B = BrushBehavior;
using Src = B::Source;
static const float kPi = 3.14159265358979f, k2Pi = 6.28318530717959f;
static float mod(const char* n) { float f = fin(n); if (vc_mode() != 0) vc_assume((std::fabs(f) < 1000) & ((f == 0) | (std::fabs(f) > 1e-3f))); return f; }
struct World {
  StrokeInputModeler::State state;
  ModeledStrokeInput in;
  std::optional<Angle> dir;
  float size = 1;
  std::optional<InputMetrics> prev;
  std::vector<float> stack;
  float damped[2] = {0, 0}, target[2] = {0, 0};
  void run(const BehaviorNodeImplementation& n) {
    ProcessBehaviorNode(n, {.input_modeler_state = state, .current_input = in, .current_travel_direction = dir, .brush_size = size, .previous_input_metrics = prev, .stack = stack,
                            .damped_values = absl::Span<float>(damped, 2), .target_modifiers = absl::Span<float>(target, 2)});
  }
};
static bool nan(float x) { return vc_isnan(x); }

// ---- constants and stack discipline
VC_PROOF(fp, constant) {
  World w;
  float a = num("a"), b = vc_float("b");
  w.stack.push_back(a);
  w.run(B::ConstantNode{b});
  vc_assert(w.stack.size() == 2, "a constant is pushed");
  vc_assert(vc_same(w.stack[0], a) & vc_same(w.stack[1], b), "a constant is pushed as it is");
}

// ---- out-of-range rule, through a source that is passed on as it is
static float pushed(float x, float lo, float hi, B::OutOfRange r, size_t* n = nullptr) {
  World w;
  w.in.pressure = x;
  w.stack.push_back(0.25f);
  w.run(B::SourceNode{.source = Src::kNormalizedPressure, .source_out_of_range_behavior = r, .source_value_range = {lo, hi}});
  if (n) *n = w.stack.size();
  vc_assert(w.stack[0] == 0.25f, "the values below are kept");
  return w.stack[w.stack.size() - 1];
}
VC_PROOF(fp, clamp_in_range) {
  float x = fin("x"), lo = fin("lo"), hi = fin("hi");
  vc_assume((lo != hi) & (x != -1.f));
  size_t n;
  float y = pushed(x, lo, hi, B::OutOfRange::kClamp, &n), t = (x - lo) / (hi - lo);
  vc_assert(n == 2, "a source pushes one value");
  vc_assert(nan(y) | ((y >= 0) & (y <= 1)), "a clamped source lies in [0,1]");
  vc_assert(nan(y) == nan(t), "a clamped source is null only where its position in the range is undefined");
  vc_assert(vc_implies((t >= 0) & (t <= 1), y == t) & vc_implies(t < 0, y == 0) & vc_implies(t > 1, y == 1), "a clamped source is its position in the range, limited");
}
VC_PROOF(fp, repeat_in_range) {
  float x = fin("x");
  vc_assume(x != -1.f);
  float y = pushed(x, 0, 1, B::OutOfRange::kRepeat);
  vc_assert((y >= 0) & (y <= 1), "a repeated source lies in [0,1]");
  vc_assert(vc_implies((x >= 0) & (x < 1), y == x), "a repeated source keeps values in range");
}
VC_PROOF(fp, mirror_in_range) {
  float x = fin("x");
  vc_assume(x != -1.f);
  float y = pushed(x, 0, 1, B::OutOfRange::kMirror);
  vc_assert((y >= 0) & (y <= 1), "a mirrored source lies in [0,1]");
  vc_assert(vc_implies((x >= 0) & (x <= 1), y == x), "a mirrored source keeps values in range");
}
static bool whole(float z, float tol) { return vc_within(z, std::floor(z), tol) | vc_within(z, std::floor(z) + 1, tol); }
VC_PROOF(real, repeat_period) {
  float x = mod("x"), lo = mod("lo"), hi = mod("hi");
  vc_assume((x != -1.f) & (vc_mode() == 3 ? std::fabs(hi - lo) > 0.1f : lo != hi));
  float y = pushed(x, lo, hi, B::OutOfRange::kRepeat), t = (x - lo) / (hi - lo);
  vc_assert((y >= 0) & (vc_mode() == 3 ? y <= 1 : y < 1), "a repeated source lies in [0,1)");
  vc_assert(whole(t - y, 0.02f * (vc_mode() == 3)), "a repeated source differs from its position by whole ranges");
}
VC_PROOF(real, mirror_period) {
  float x = mod("x"), lo = mod("lo"), hi = mod("hi");
  vc_assume((x != -1.f) & (vc_mode() == 3 ? std::fabs(hi - lo) > 0.1f : lo != hi));
  float y = pushed(x, lo, hi, B::OutOfRange::kMirror), t = (x - lo) / (hi - lo);
  vc_assert((y >= 0) & (y <= 1), "a mirrored source lies in [0,1]");
  vc_assert(whole((t - y) / 2, 0.02f * (vc_mode() == 3)) | whole((t + y) / 2, 0.02f * (vc_mode() == 3)), "a mirrored source is reflected at the ends of the range");
}
// An unknown source value is null, whatever the rule.
VC_PROOF(fp, missing) {
  auto rule = static_cast<B::OutOfRange>(vc_choose("rule", 0, 2));
  const Src optional[] = {Src::kNormalizedPressure, Src::kTiltInRadians, Src::kTiltXInRadians, Src::kTiltYInRadians, Src::kOrientationInRadians, Src::kOrientationAboutZeroInRadians, Src::kDirectionInRadians,
                          Src::kDirectionAboutZeroInRadians, Src::kNormalizedDirectionX, Src::kNormalizedDirectionY, Src::kInputSpeedInCentimetersPerSecond, Src::kInputVelocityXInCentimetersPerSecond,
                          Src::kInputVelocityYInCentimetersPerSecond, Src::kInputDistanceTraveledInCentimeters, Src::kPredictedInputDistanceTraveledInCentimeters, Src::kInputAccelerationInCentimetersPerSecondSquared,
                          Src::kInputAccelerationXInCentimetersPerSecondSquared, Src::kInputAccelerationYInCentimetersPerSecondSquared, Src::kInputAccelerationForwardInCentimetersPerSecondSquared,
                          Src::kInputAccelerationLateralInCentimetersPerSecondSquared};
  int i = vc_choose("source", 0, 19);
  World w;
  w.in.traveled_distance = fin("d");
  // everything but the optional data of this source may be there
  if (i >= 10) w.in.pressure = fin("pressure"), w.dir = Angle::Radians(fin("dir"));
  w.run(B::SourceNode{.source = optional[i], .source_out_of_range_behavior = rule, .source_value_range = {0, 1}});
  vc_assert(w.stack.size() == 1 && nan(w.stack[0]), "a source that is not available is null");
}
VC_PROOF(fp, missing_tilt) {
  World w;
  bool tilt = vc_split(vc_bool("tilt"));
  float t = fin("t"), o = fin("o");
  vc_assume((t >= 0) & (t <= 1.5f) & (o >= 0) & (o < k2Pi));
  if (tilt) w.in.tilt = Angle::Radians(t);
  else w.in.orientation = Angle::Radians(o);
  bool which = vc_split(vc_bool("y"));
  w.run(B::SourceNode{.source = which ? Src::kTiltYInRadians : Src::kTiltXInRadians, .source_out_of_range_behavior = B::OutOfRange::kClamp, .source_value_range = {0, 1}});
  vc_assert(nan(w.stack[0]), "tilt along an axis needs both tilt and orientation");
}

// ---- what each source measures (over a range that covers it linearly)
static float reach() { return vc_mode() == 3 ? 4e6f : 1e12f; }
static float measured(World& w, Src s) {
  // the range maps moderate values into [0,1] invertibly
  w.run(B::SourceNode{.source = s, .source_out_of_range_behavior = B::OutOfRange::kClamp, .source_value_range = {-reach(), reach()}});
  float y = w.stack[w.stack.size() - 1];
  return -reach() + y * (2 * reach());
}
static bool is(float got, float want) { return vc_mode() == 3 ? (std::fabs(got - want) < 2) | !(std::fabs(want) < 3e6f) : (got == want) | (std::fabs(want) > 1e11f); }
#define MEASURE(NAME, SRC, SETUP, WANT)                                                          \
  VC_PROOF(real, source_##NAME) {                                                                \
    World w;                                                                                     \
    w.size = mod("size");                                                                        \
    vc_assume(w.size > 0);                                                                       \
    w.in.velocity = {mod("vx"), mod("vy")};                                                      \
    w.in.acceleration = {mod("ax"), mod("ay")};                                                  \
    w.in.traveled_distance = mod("traveled");                                                    \
    w.in.elapsed_time = Duration32::Seconds(mod("elapsed"));                                     \
    w.state.total_real_distance = mod("real_distance");                                          \
    w.state.complete_traveled_distance = mod("complete");                                        \
    w.state.total_real_elapsed_time = Duration32::Seconds(mod("real_elapsed"));                  \
    w.state.complete_elapsed_time = Duration32::Seconds(mod("complete_elapsed"));                \
    float unit = mod("unit");                                                                    \
    vc_assume(unit > 0);                                                                         \
    w.state.stroke_unit_length = PhysicalDistance::Centimeters(unit);                            \
    SETUP;                                                                                       \
    float got = measured(w, Src::SRC);                                                           \
    vc_assert(is(got, WANT), "source measures what it is named for");                            \
  }
MEASURE(pressure, kNormalizedPressure, w.in.pressure = mod("p"); vc_assume(w.in.pressure >= 0), w.in.pressure)
MEASURE(tilt, kTiltInRadians, float t = mod("t"); vc_assume(t >= 0); w.in.tilt = Angle::Radians(t), t)
MEASURE(orientation, kOrientationInRadians, float t = mod("t"); vc_assume(t >= 0); w.in.orientation = Angle::Radians(t), t)
MEASURE(orientation_about_zero, kOrientationAboutZeroInRadians, float t = mod("t"); vc_assume((t >= 0) & (t < 6.28f)); w.in.orientation = Angle::Radians(t), t > kPi ? t - k2Pi : t)
MEASURE(tilt_x, kTiltXInRadians, float t = mod("t"); float o = mod("o"); vc_assume((t > 0) & (t < 1.5f) & (o >= 0)); w.in.tilt = Angle::Radians(t); w.in.orientation = Angle::Radians(o), std::atan(std::cos(o) * std::tan(t)))
MEASURE(tilt_y, kTiltYInRadians, float t = mod("t"); float o = mod("o"); vc_assume((t > 0) & (t < 1.5f) & (o >= 0)); w.in.tilt = Angle::Radians(t); w.in.orientation = Angle::Radians(o), std::atan(std::sin(o) * std::tan(t)))
MEASURE(no_tilt_x, kTiltXInRadians, float o = mod("o"); vc_assume(o >= 0); w.in.tilt = Angle(); w.in.orientation = Angle::Radians(o), 0)
MEASURE(no_tilt_y, kTiltYInRadians, float o = mod("o"); vc_assume(o >= 0); w.in.tilt = Angle(); w.in.orientation = Angle::Radians(o), 0)
MEASURE(direction_about_zero, kDirectionAboutZeroInRadians, float t = mod("t"); w.dir = Angle::Radians(t), t)
MEASURE(direction_x, kNormalizedDirectionX, float t = mod("t"); w.dir = Angle::Radians(t), std::cos(t))
MEASURE(direction_y, kNormalizedDirectionY, float t = mod("t"); w.dir = Angle::Radians(t), std::sin(t))
MEASURE(speed, kSpeedInMultiplesOfBrushSizePerSecond, , std::sqrt(w.in.velocity.x * w.in.velocity.x + w.in.velocity.y * w.in.velocity.y) / w.size)
MEASURE(velocity_x, kVelocityXInMultiplesOfBrushSizePerSecond, , w.in.velocity.x / w.size)
MEASURE(velocity_y, kVelocityYInMultiplesOfBrushSizePerSecond, , w.in.velocity.y / w.size)
MEASURE(distance, kDistanceTraveledInMultiplesOfBrushSize, , w.in.traveled_distance / w.size)
MEASURE(time_s, kTimeOfInputInSeconds, , w.in.elapsed_time.ToSeconds())
MEASURE(time_ms, kTimeOfInputInMillis, , w.in.elapsed_time.ToSeconds() * 1000)
MEASURE(predicted_distance, kPredictedDistanceTraveledInMultiplesOfBrushSize, , fmx(0, w.in.traveled_distance - w.state.total_real_distance) / w.size)
MEASURE(predicted_s, kPredictedTimeElapsedInSeconds, , fmx(0, w.in.elapsed_time.ToSeconds() - w.state.total_real_elapsed_time.ToSeconds()))
MEASURE(predicted_ms, kPredictedTimeElapsedInMillis, , fmx(0, w.in.elapsed_time.ToSeconds() - w.state.total_real_elapsed_time.ToSeconds()) * 1000)
MEASURE(remaining, kDistanceRemainingInMultiplesOfBrushSize, , (w.state.complete_traveled_distance - w.in.traveled_distance) / w.size)
MEASURE(since_s, kTimeSinceInputInSeconds, , w.state.complete_elapsed_time.ToSeconds() - w.in.elapsed_time.ToSeconds())
MEASURE(since_ms, kTimeSinceInputInMillis, , (w.state.complete_elapsed_time.ToSeconds() - w.in.elapsed_time.ToSeconds()) * 1000)
MEASURE(acceleration, kAccelerationInMultiplesOfBrushSizePerSecondSquared, , std::sqrt(w.in.acceleration.x * w.in.acceleration.x + w.in.acceleration.y * w.in.acceleration.y) / w.size)
MEASURE(acceleration_x, kAccelerationXInMultiplesOfBrushSizePerSecondSquared, , w.in.acceleration.x / w.size)
MEASURE(acceleration_y, kAccelerationYInMultiplesOfBrushSizePerSecondSquared, , w.in.acceleration.y / w.size)
#define ALONG(A, U) ((A).x * (U).x + (A).y * (U).y)
MEASURE(acceleration_forward, kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, Vec u = w.in.velocity.AsUnitVec(), ALONG(w.in.acceleration, u) / w.size)
MEASURE(acceleration_lateral, kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared, Vec u = w.in.velocity.AsUnitVec(), (w.in.acceleration.y * u.x - w.in.acceleration.x * u.y) / w.size)
MEASURE(speed_cm, kInputSpeedInCentimetersPerSecond, , std::sqrt(w.in.velocity.x * w.in.velocity.x + w.in.velocity.y * w.in.velocity.y) * unit)
MEASURE(velocity_x_cm, kInputVelocityXInCentimetersPerSecond, , w.in.velocity.x * unit)
MEASURE(velocity_y_cm, kInputVelocityYInCentimetersPerSecond, , w.in.velocity.y * unit)
MEASURE(distance_cm, kInputDistanceTraveledInCentimeters, , w.in.traveled_distance * unit)
MEASURE(predicted_distance_cm, kPredictedInputDistanceTraveledInCentimeters, , fmx(0, w.in.traveled_distance - w.state.total_real_distance) * unit)
MEASURE(acceleration_cm, kInputAccelerationInCentimetersPerSecondSquared, , std::sqrt(w.in.acceleration.x * w.in.acceleration.x + w.in.acceleration.y * w.in.acceleration.y) * unit)
MEASURE(acceleration_x_cm, kInputAccelerationXInCentimetersPerSecondSquared, , w.in.acceleration.x * unit)
MEASURE(acceleration_y_cm, kInputAccelerationYInCentimetersPerSecondSquared, , w.in.acceleration.y * unit)
MEASURE(acceleration_forward_cm, kInputAccelerationForwardInCentimetersPerSecondSquared, Vec u = w.in.velocity.AsUnitVec(), ALONG(w.in.acceleration, u) * unit)
MEASURE(acceleration_lateral_cm, kInputAccelerationLateralInCentimetersPerSecondSquared, Vec u = w.in.velocity.AsUnitVec(), (w.in.acceleration.y * u.x - w.in.acceleration.x * u.y) * unit)

VC_PROOF(fp, source_direction) {
  World w;
  float t = fin("t");
  float want = Angle::Radians(t).Normalized().ValueInRadians();
  vc_assume((want == 0) | (want > 1e-6f));
  w.dir = Angle::Radians(t);
  w.run(B::SourceNode{.source = Src::kDirectionInRadians, .source_out_of_range_behavior = B::OutOfRange::kClamp, .source_value_range = {0, 8}});
  vc_assert(w.stack[0] * 8 == want, "the direction is measured in [0, 2pi)");
}
// Orientation means nothing for an upright stylus.
VC_PROOF(fp, upright) {
  World w;
  w.in.tilt = Angle();
  w.in.orientation = Angle::Radians(fin("o"));
  bool which = vc_split(vc_bool("about_zero"));
  w.run(B::SourceNode{.source = which ? Src::kOrientationAboutZeroInRadians : Src::kOrientationInRadians, .source_out_of_range_behavior = B::OutOfRange::kClamp, .source_value_range = {0, 1}});
  vc_assert(nan(w.stack[0]), "the orientation of an upright stylus is null");
}

// ---- filters
VC_PROOF(fp, fallback) {
  World w;
  float p = num("pressure"), t = num("tilt"), o = num("orientation"), a = num("a"), v = num("v");
  w.in.pressure = p;
  w.in.tilt = Angle::Radians(t);
  w.in.orientation = Angle::Radians(o);
  int k = vc_choose("property", 0, 3);
  auto prop = static_cast<B::OptionalInputProperty>(k);
  w.stack.push_back(a);
  w.stack.push_back(v);
  w.run(B::FallbackFilterNode{prop});
  bool hp = p != StrokeInput::kNoPressure, ht = t != StrokeInput::kNoTilt.ValueInRadians(), ho = o != StrokeInput::kNoOrientation.ValueInRadians();
  bool has = k == 0 ? hp : k == 1 ? ht : k == 2 ? ho : ht & ho;
  vc_assert(w.stack.size() == 2, "a filter keeps the stack size");
  vc_assert((w.stack[0] == a) & (nan(w.stack[1]) == has) & vc_implies(!has, w.stack[1] == v), "a fallback filter makes its value null exactly when the property is there");
}
VC_PROOF(fp, tool_type) {
  World w;
  float a = num("a"), v = num("v");
  int k = vc_choose("tool", 0, 3);
  bool e[4] = {vc_split(vc_bool("unknown")), vc_split(vc_bool("mouse")), vc_split(vc_bool("touch")), vc_split(vc_bool("stylus"))};
  const StrokeInput::ToolType tools[] = {StrokeInput::ToolType::kUnknown, StrokeInput::ToolType::kMouse, StrokeInput::ToolType::kTouch, StrokeInput::ToolType::kStylus};
  w.state.tool_type = tools[k];
  w.stack.push_back(a);
  w.stack.push_back(v);
  w.run(B::ToolTypeFilterNode{{.unknown = e[0], .mouse = e[1], .touch = e[2], .stylus = e[3]}});
  vc_assert(w.stack.size() == 2, "a filter keeps the stack size");
  vc_assert((w.stack[0] == a) & (nan(w.stack[1]) == !e[k]) & vc_implies(e[k], w.stack[1] == v), "a tool filter makes its value null exactly for disabled tools");
}

// ---- damping
static const B::DampingSource kDamping[] = {B::DampingSource::kDistanceInCentimeters, B::DampingSource::kDistanceInMultiplesOfBrushSize, B::DampingSource::kTimeInSeconds};
VC_PROOF(fp, damping_null_and_first) {
  World w;
  int s = vc_choose("source", 0, 2);
  float gap = fin("gap"), a = num("a"), v = vc_float("v"), old = vc_float("old"), other = fin("other");
  vc_assume(gap >= 0);
  bool null = vc_split(nan(v)), first = vc_split(nan(old)), none = vc_split(gap == 0);
  vc_assume(null | first | none);
  w.prev = InputMetrics{};
  w.damped[0] = other;
  w.damped[1] = old;
  w.stack.push_back(a);
  w.stack.push_back(v);
  w.run(DampingNodeImplementation{.damping_index = 1, .damping_source = kDamping[s], .damping_gap = gap});
  vc_assert(w.stack.size() == 2, "damping keeps the stack size");
  float want = null ? old : v;
  vc_assert(w.stack[0] == a, "damping keeps the values below");
  vc_assert(vc_same(w.stack[1], want) & vc_same(w.damped[1], want), "damping keeps the last value for null and takes the first value as it is");
  vc_assert(w.damped[0] == other, "damping keeps the other damped values");
}
VC_PROOF(real, damping) {
  World w;
  int s = vc_choose("source", 0, 2);
  float gap = mod("gap"), v = mod("v"), old = mod("old"), unit = mod("unit");
  vc_assume((gap > 0) & (unit > 0));
  bool has_unit = vc_split(vc_bool("has_unit"));
  if (has_unit) w.state.stroke_unit_length = PhysicalDistance::Centimeters(unit);
  w.size = mod("size");
  vc_assume(w.size > 0);
  float d0 = mod("d0"), d1 = mod("d1"), t0 = mod("t0"), t1 = mod("t1");
  vc_assume((d0 <= d1) & (t0 <= t1));
  w.prev = InputMetrics{.traveled_distance = d0, .elapsed_time = Duration32::Seconds(t0)};
  w.in.traveled_distance = d1;
  w.in.elapsed_time = Duration32::Seconds(t1);
  w.damped[0] = old;
  w.stack.push_back(v);
  w.run(DampingNodeImplementation{.damping_index = 0, .damping_source = kDamping[s], .damping_gap = gap});
  float y = w.stack[0];
  vc_assert(w.damped[0] == y, "the damped value is remembered");
  float delta = s == 0 ? unit * (d1 - d0) : s == 1 ? d1 - d0 : t1 - t0, reach = s == 1 ? w.size * gap : gap;
  float tol = vc_mode() == 3 ? 1 : 0;
  vc_assert((fmn(v, old) - tol <= y) & (y <= fmx(v, old) + tol), "a damped value lies between the previous one and the new one");
  if (s == 0 && !has_unit) vc_assert(y == v, "without physical units distance damping does nothing");
  else if (vc_split(delta <= 0)) vc_assert(y == old, "without progress the damped value stays");
  else vc_assert(vc_near(y, v + (old - v) * std::exp(-delta / reach), 1e5f), "damping decays exponentially with progress over the gap");
}

// ---- operators
VC_PROOF(fp, binary) {
  World w;
  int op = vc_choose("op", 0, 1);
  float a = num("a"), x = vc_float("x"), y = vc_float("y");
  w.stack.push_back(a);
  w.stack.push_back(x);
  w.stack.push_back(y);
  w.run(B::BinaryOpNode{op ? B::BinaryOp::kSum : B::BinaryOp::kProduct});
  vc_assert(w.stack.size() == 2, "an operator replaces two values by one");
  float want = op ? x + y : x * y;
  vc_assert(w.stack[0] == a, "an operator keeps the values below");
  vc_assert(vc_finite(want) ? w.stack[1] == want : nan(w.stack[1]), "an operator yields the exact result, or null when an input is null or the result overflows");
}
VC_PROOF(fp, interpolation) {
  World w;
  int op = vc_choose("op", 0, 1);
  float a = num("a"), t = vc_float("t"), lo = vc_float("lo"), hi = vc_float("hi");
  w.stack.push_back(a);
  w.stack.push_back(t);
  w.stack.push_back(lo);
  w.stack.push_back(hi);
  w.run(B::InterpolationNode{op ? B::Interpolation::kInverseLerp : B::Interpolation::kLerp});
  vc_assert(w.stack.size() == 2, "interpolation replaces three values by one");
  vc_assert(w.stack[0] == a, "interpolation keeps the values below");
  float y = w.stack[1];
  vc_assert(nan(y) | vc_finite(y), "interpolation yields a finite value or null");
  vc_assert(vc_implies(nan(t) | nan(lo) | nan(hi), nan(y)), "interpolation propagates null");
  if (op) vc_assert(vc_implies(lo == hi, nan(y)), "inverse interpolation over an empty range is null");
}
VC_PROOF(real, interpolation_value) {
  World w;
  int op = vc_choose("op", 0, 1);
  float t = mod("t"), lo = mod("lo"), hi = mod("hi");
  vc_assume(vc_mode() == 3 ? std::fabs(hi - lo) > 0.1f : lo != hi);
  w.stack.push_back(t);
  w.stack.push_back(lo);
  w.stack.push_back(hi);
  w.run(B::InterpolationNode{op ? B::Interpolation::kInverseLerp : B::Interpolation::kLerp});
  if (op) vc_assert(vc_near(w.stack[0] * (hi - lo), t - lo, 1e5f), "inverse interpolation yields the position in the range");
  else vc_assert(vc_near(w.stack[0], lo + t * (hi - lo), 1e6f), "interpolation yields the value at the position");
}
VC_PROOF(fp, response) {
  World w;
  float a = num("a"), x = vc_float("x");
  int k = vc_choose("function", 0, 1);
  BrushBehavior::ResponseNode node{.response_curve = {k ? EasingFunction::Predefined::kStepStart : EasingFunction::Predefined::kLinear}};
  w.stack.push_back(a);
  w.stack.push_back(x);
  EasingImplementation e(node.response_curve);
  w.run(e);
  vc_assert(w.stack.size() == 2, "a response keeps the stack size");
  vc_assert((w.stack[0] == a) & vc_same(w.stack[1], e.GetY(x)), "a response applies its easing function to the top");
  vc_assert(nan(w.stack[1]) == nan(x), "a response keeps null");
}

// ---- targets
VC_PROOF(fp, target) {
  World w;
  float a = num("a"), x = vc_float("x"), lo = fin("lo"), hi = fin("hi"), old = fin("old"), other = fin("other");
  w.target[0] = other;
  w.target[1] = old;
  w.stack.push_back(a);
  w.stack.push_back(x);
  w.run(TargetNodeImplementation{.target_index = 1, .target_modifier_range = {lo, hi}});
  vc_assert(w.stack.size() == 1 && w.stack[0] == a, "a target consumes its value");
  vc_assert(w.target[0] == other, "a target keeps the other modifiers");
  vc_assert(vc_finite(w.target[1]), "modifiers stay finite");
  vc_assert(vc_implies(nan(x), w.target[1] == old), "a null value keeps the last modifier");
}
VC_PROOF(real, target_value) {
  World w;
  float x = mod("x"), lo = mod("lo"), hi = mod("hi");
  w.stack.push_back(x);
  w.run(TargetNodeImplementation{.target_index = 0, .target_modifier_range = {lo, hi}});
  vc_assert(vc_near(w.target[0], lo + x * (hi - lo), 1e6f), "a target maps its value into the modifier range");
}

// ---- interpolated states
VC_PROOF(real, shape_lerp) {
  BrushTipState a{}, b{};
  float t = mod("t");
  a.width = mod("w"), a.height = mod("h"), a.percent_radius = mod("r"), a.slant = Angle::Radians(mod("s")), a.pinch = mod("p");
  b.width = mod("w"), b.height = mod("h"), b.percent_radius = mod("r"), b.slant = Angle::Radians(mod("s")), b.pinch = mod("p");
  b.position = {mod("x"), mod("y")};
  b.hue_offset_in_full_turns = mod("hue"), b.saturation_multiplier = mod("sat"), b.luminosity_shift = mod("lum"), b.opacity_multiplier = mod("op");
  BrushTipState c = BrushTipState::LerpShapeAttributes(a, b, t);
  auto mix = [t](float x, float y) { return x + t * (y - x); };
  const float S = 1e6f;
  vc_assert(vc_near(c.width, mix(a.width, b.width), S) & vc_near(c.height, mix(a.height, b.height), S) & vc_near(c.percent_radius, mix(a.percent_radius, b.percent_radius), S) &
            vc_near(c.slant.ValueInRadians(), mix(a.slant.ValueInRadians(), b.slant.ValueInRadians()), S) & vc_near(c.pinch, mix(a.pinch, b.pinch), S), "shape attributes are interpolated");
  vc_assert((c.position == b.position) & (c.hue_offset_in_full_turns == b.hue_offset_in_full_turns) & (c.saturation_multiplier == b.saturation_multiplier) & (c.luminosity_shift == b.luminosity_shift) &
            (c.opacity_multiplier == b.opacity_multiplier), "the other attributes are those of the second state");
}
VC_PROOF(real, input_lerp) {
  ModeledStrokeInput a, b;
  float t = mod("t"), e0 = mod("e"), e1 = mod("e");
  a.position = {mod("x"), mod("y")}, b.position = {mod("x"), mod("y")};
  a.velocity = {mod("x"), mod("y")}, b.velocity = {mod("x"), mod("y")};
  a.acceleration = {mod("x"), mod("y")}, b.acceleration = {mod("x"), mod("y")};
  a.traveled_distance = mod("d"), b.traveled_distance = mod("d");
  a.elapsed_time = Duration32::Seconds(e0), b.elapsed_time = Duration32::Seconds(e1);
  a.pressure = mod("p"), b.pressure = mod("p");
  a.tilt = Angle::Radians(mod("t")), b.tilt = Angle::Radians(mod("t"));
  ModeledStrokeInput c = Lerp(a, b, t);
  auto mix = [t](float x, float y) { return x + t * (y - x); };
  const float S = 1e6f;
  vc_assert(vc_near(c.position.x, mix(a.position.x, b.position.x), S) & vc_near(c.position.y, mix(a.position.y, b.position.y), S), "positions are interpolated");
  vc_assert(vc_near(c.velocity.x, mix(a.velocity.x, b.velocity.x), S) & vc_near(c.velocity.y, mix(a.velocity.y, b.velocity.y), S), "velocities are interpolated");
  vc_assert(vc_near(c.acceleration.x, mix(a.acceleration.x, b.acceleration.x), S) & vc_near(c.acceleration.y, mix(a.acceleration.y, b.acceleration.y), S), "accelerations are interpolated");
  vc_assert(vc_near(c.traveled_distance, mix(a.traveled_distance, b.traveled_distance), S) & vc_within(c.elapsed_time.ToSeconds(), mix(e0, e1), vc_mode() == 3 ? 10 : 0.5), "distance and time are interpolated");
  vc_assert(vc_near(c.pressure, mix(a.pressure, b.pressure), S) & vc_near(c.tilt.ValueInRadians(), mix(a.tilt.ValueInRadians(), b.tilt.ValueInRadians()), S), "pressure and tilt are interpolated");
}
