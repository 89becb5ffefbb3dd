// Brushes: size and precision ("epsilon") are finite and positive with epsilon <= size, in every state any history can reach.
// VC-SOURCES: ink/brush/brush.cc ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc ink/types/uri.cc
// VC-OPT: max_iter=64 nomerge=1 joinequal=1 max_states=500
#include "vc.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
using namespace ink;
static bool legal(float s, float e) { return vc_finite(s) & vc_finite(e) & (s > 0) & (e > 0) & (e <= s); }
static Color col(uint8_t i) { return Color::FromUint8(i, i + 1, i + 2, 255); }
// any brush that a history can have produced (the invariant is "legal")
static Brush state(float& s, float& e) {
  s = vc_float("size"), e = vc_float("epsilon");
  vc_assume(legal(s, e));
  absl::StatusOr<Brush> b = Brush::Create(BrushFamily(), col(7), s, e);
  vc_assert(b.ok(), "a legal size and precision are accepted");
  return *b;
}
static bool is(const Brush& b, float s, float e) { return (b.GetSize() == s) & (b.GetEpsilon() == e); }
VC_PROOF(fp, create) {
  float s = vc_float("size"), e = vc_float("epsilon");
  Color c = col(9);
  absl::StatusOr<Brush> b = Brush::Create(BrushFamily(), c, s, e);
  vc_assert(b.ok() == legal(s, e), "a brush is created exactly for a finite positive size and precision with precision at most size");
  if (b.ok()) {
    vc_assert(is(*b, s, e), "a new brush has the given size and precision");
    vc_assert(b->GetColor() == c, "a new brush has the given colour");
    vc_assert(b->CoatCount() == 1, "a new brush has the coats of its family");
  }
}
VC_PROOF(fp, defaults) {
  Brush b;
  vc_assert(legal(b.GetSize(), b.GetEpsilon()), "the default brush has a legal size and precision");
  vc_assert(b.CoatCount() == 1, "the default family has one coat");
}
VC_PROOF(fp, set_size) {
  float s, e; Brush b = state(s, e);
  float t = vc_float("new");
  bool ok = b.SetSize(t).ok();
  vc_assert(ok == legal(t, e), "a new size is accepted exactly when it is finite, positive and not below the precision");
  vc_assert(ok ? is(b, t, e) : is(b, s, e), "an accepted size is stored, a rejected one changes nothing");
  vc_assert(b.GetColor() == col(7) && b.CoatCount() == 1, "resizing changes neither colour nor family");
  vc_assert(legal(b.GetSize(), b.GetEpsilon()), "the invariant is kept");
}
VC_PROOF(fp, set_epsilon) {
  float s, e; Brush b = state(s, e);
  float t = vc_float("new");
  bool ok = b.SetEpsilon(t).ok();
  vc_assert(ok == legal(s, t), "a new precision is accepted exactly when it is finite, positive and not above the size");
  vc_assert(ok ? is(b, s, t) : is(b, s, e), "an accepted precision is stored, a rejected one changes nothing");
  vc_assert(b.GetColor() == col(7) && b.CoatCount() == 1, "a new precision changes neither colour nor family");
  vc_assert(legal(b.GetSize(), b.GetEpsilon()), "the invariant is kept");
}
VC_PROOF(fp, set_color_family) {
  float s, e; Brush b = state(s, e);
  Color c = Color::FromFloat(vc_finite_float("r"), 0.5f, 0.25f, 0.75f, Color::Format::kLinear, ColorSpace::kDisplayP3);
  b.SetColor(c);
  vc_assert(b.GetColor() == c, "the colour set is the colour returned");
  vc_assert(is(b, s, e) & (b.CoatCount() == 1), "recolouring changes nothing else");
  absl::StatusOr<BrushFamily> f = BrushFamily::Create(absl::Span<const BrushCoat>(), std::nullopt, BrushFamily::SpringModelV2{});
  vc_assert(f.ok(), "a family without coats is accepted");
  b.SetFamily(*f);
  vc_assert((b.CoatCount() == 0) & (b.GetCoats().size() == 0) & (b.GetFamily().GetInputModel().index() == 1), "the family set is the family returned");
  vc_assert(is(b, s, e) && b.GetColor() == c, "a new family changes nothing else");
}
VC_PROOF(fp, copies) {
  float s, e; Brush b = state(s, e);
  Brush k = b, a;
  float t = vc_float("new");
  (void)b.SetSize(t).ok();
  vc_assert(is(k, s, e), "a copy is independent of its source");
  a = k;
  vc_assert(is(a, s, e) && a.GetColor() == col(7) && a.CoatCount() == 1, "assignment copies everything");
}
