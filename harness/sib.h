// Shared builders for stroke input batch contracts: the specification of a valid input and of two valid consecutive inputs.
#ifndef VC_SIB_H_
#define VC_SIB_H_
#include <vector>
#include "vc.h"
#include "ink/geometry/affine_transform.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
// an input as plain numbers
struct In {
  int tool;
  float x, y, t, unit, p, tilt, o;
  bool has_p() const { return p != -1; }
  bool has_t() const { return tilt != -1; }
  bool has_o() const { return o != -1; }
  StrokeInput make() const {
    StrokeInput s;
    s.tool_type = static_cast<StrokeInput::ToolType>(tool);
    s.position = {x, y};
    s.elapsed_time = Duration32::Seconds(t);
    s.stroke_unit_length = PhysicalDistance::Centimeters(unit);
    s.pressure = p;
    s.tilt = Angle::Radians(tilt);
    s.orientation = Angle::Radians(o);
    return s;
  }
};
inline float in_num(const char* n) { float f = vc_float(n); vc_assume(!vc_isnan(f)); return f; }
// any input at all (durations are never NaN)
inline In any_input() {
  In a;
  a.tool = vc_u8("tool");
  vc_assume(a.tool <= 127);
  a.x = vc_float("x"), a.y = vc_float("y"), a.t = in_num("t"), a.unit = vc_float("unit"), a.p = vc_float("p"), a.tilt = vc_float("tilt"), a.o = vc_float("o");
  return a;
}
inline bool in_range(float x, float lo, float hi) { return (x >= lo) & (x <= hi); }
constexpr float kVcHalfPi = 1.57079637f, kVcTwoPi = 6.28318548f;  // the floats nearest pi/2 and 2 pi
inline bool valid(const In& a) {
  return (a.tool <= 3) & vc_finite(a.x) & vc_finite(a.y) & vc_finite(a.t) & (a.t >= 0) & vc_finite(a.unit) & (a.unit >= 0) &
         ((a.p == -1) | in_range(a.p, 0, 1)) & ((a.tilt == -1) | in_range(a.tilt, 0, kVcHalfPi)) & ((a.o == -1) | in_range(a.o, 0, kVcTwoPi));
}
inline bool follows(const In& a, const In& b) {
  bool same_point = (a.x == b.x) & (a.y == b.y) & (a.t == b.t);
  return (a.tool == b.tool) & !same_point & (a.t <= b.t) & (a.unit == b.unit) & (a.has_p() == b.has_p()) & (a.has_t() == b.has_t()) & (a.has_o() == b.has_o());
}
// a valid input of a given format (bit 0 pressure, bit 1 tilt, bit 2 orientation)
inline In valid_input(int format, int tool, float unit) {
  In a;
  a.tool = tool, a.unit = unit;
  a.x = vc_float("vx"), a.y = vc_float("vy"), a.t = vc_float("vt");
  a.p = a.tilt = a.o = -1;
  if (format & 1) { a.p = vc_float("vp"); vc_assume(a.p != -1); }
  if (format & 2) { a.tilt = vc_float("vtilt"); vc_assume(a.tilt != -1); }
  if (format & 4) { a.o = vc_float("vo"); vc_assume(a.o != -1); }
  vc_assume(valid(a));
  return a;
}
inline void add(std::vector<StrokeInput>& v, const In& a) { v.push_back(a.make()); }
inline bool same(const StrokeInput& s, const In& a) {
  return (static_cast<int>(s.tool_type) == a.tool) & (s.position.x == a.x) & (s.position.y == a.y) & (s.elapsed_time.ToSeconds() == a.t) &
         (s.stroke_unit_length.ToCentimeters() == a.unit) & (s.pressure == a.p) & (s.tilt.ValueInRadians() == a.tilt) & (s.orientation.ValueInRadians() == a.o);
}
// a valid sequence of n inputs, and the batch that holds it
struct Seq {
  int n;
  In in[6];
};
inline Seq some_seq(int n, int format) {
  Seq q;
  q.n = n;
  int tool = vc_u8("vtool");
  vc_assume(tool <= 3);
  float unit = vc_float("vunit");
  vc_assume(vc_finite(unit) & (unit >= 0));
  for (int i = 0; i < n; ++i) {
    q.in[i] = valid_input(format, tool, unit);
    if (i > 0) vc_assume(follows(q.in[i - 1], q.in[i]));
  }
  return q;
}
inline StrokeInputBatch batch_of(const Seq& q) {
  std::vector<StrokeInput> v;
  for (int i = 0; i < q.n; ++i) add(v, q.in[i]);
  absl::StatusOr<StrokeInputBatch> b = StrokeInputBatch::Create(v);
  vc_assert(b.ok(), "a valid sequence is accepted");
  return *b;
}
// the batch holds exactly the sequence, as seen through every accessor
inline bool holds(const StrokeInputBatch& b, const Seq& q) {
  if (b.Size() != static_cast<size_t>(q.n) || b.IsEmpty() != (q.n == 0)) return false;
  bool ok = true;
  for (int i = 0; i < q.n; ++i) ok = ok & same(b.Get(i), q.in[i]);
  if (q.n == 0) {
    return (b.GetToolType() == StrokeInput::ToolType::kUnknown) & !b.HasStrokeUnitLength() & !b.GetStrokeUnitLength().has_value() & !b.HasPressure() & !b.HasTilt() & !b.HasOrientation() &
           (b.GetDuration().ToSeconds() == 0);
  }
  const In& a = q.in[0];
  ok = ok & (static_cast<int>(b.GetToolType()) == a.tool) & (b.HasStrokeUnitLength() == (a.unit != 0)) & (b.HasPressure() == a.has_p()) & (b.HasTilt() == a.has_t()) & (b.HasOrientation() == a.has_o());
  ok = ok & (b.GetStrokeUnitLength().has_value() == (a.unit != 0));
  if (b.GetStrokeUnitLength().has_value()) ok = ok & (b.GetStrokeUnitLength()->ToCentimeters() == a.unit);
  return ok & (b.GetDuration().ToSeconds() == q.in[q.n - 1].t - a.t);
}
#endif
