// Brush coats and families: accepted exactly when their parts are, within the limits; what was given is returned.
// VC-SOURCES: ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc ink/types/uri.cc
// VC-OPT: max_iter=64 nomerge=1 max_states=4000
// VC-BOUND: up to 3 tips per coat and 12 coats per family, sample identifiers (the grammar is P04)
#include "vc.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/geometry/mesh_format.h"
using namespace ink;
using brush_internal::ValidateBrushCoat;
using Id = MeshFormat::AttributeId;
static BrushPaint paint(float opacity) {
  BrushPaint::TextureLayer l;
  absl::StatusOr<Uri> u = Uri::Parse("/texture:a");
  l.color_texture_uri = *u;
  l.opacity = opacity;
  BrushPaint p;
  p.texture_layers.push_back(l);
  return p;
}
static bool prob(float x) { return (x >= 0) & (x <= 1); }
VC_PROOF(fp, coat) {
  BrushCoat c;
  float pinch = vc_float("pinch"), opacity = vc_float("opacity");
  int n = vc_choose("tips", 0, 3);
  for (int i = 0; i < n; ++i) c.tips.push_back(BrushTip{.pinch = i == 0 ? pinch : 0.f});
  c.paint = paint(opacity);
  vc_assert(ValidateBrushCoat(c).ok() == ((n == 1) & prob(pinch) & prob(opacity)), "a coat is accepted exactly when it has one tip, and tip and paint are accepted");
}
static BrushFamily::InputModel model(int i) {
  if (i == 0) return BrushFamily::SpringModelV1{};
  return BrushFamily::SpringModelV2{};
}
VC_PROOF(fp, family) {
  int n = vc_choose("coats", 0, 12), bad = n == 0 ? 0 : vc_choose("bad", 0, n - 1);
  float pinch = vc_float("pinch");
  std::vector<BrushCoat> coats;
  for (int i = 0; i < n; ++i) coats.push_back(BrushCoat{.tips = {BrushTip{.pinch = i == bad ? pinch : 0.25f}}});
  absl::StatusOr<BrushFamily> f = BrushFamily::Create(absl::MakeConstSpan(coats), std::nullopt, model(1));
  vc_assert(f.ok() == ((n <= 10) & (prob(pinch) | (n == 0))), "a family is accepted exactly when it has at most ten coats, all of them accepted");
  vc_assert(BrushFamily::MaxBrushCoats() == 10, "the coat limit is ten");
  if (f.ok()) {
    vc_assert(f->GetCoats().size() == coats.size() && !f->GetUri().has_value() && f->GetInputModel().index() == 1, "a family returns what it was made from");
    for (int i = 0; i < n; ++i) {
      vc_assert(f->GetCoats()[i].tips.size() == 1 && f->GetCoats()[i].tips[0].pinch == (i == bad ? pinch : 0.25f), "a family keeps every coat in order");
    }
  }
}
static bool same(const std::optional<Uri>& u, const char* s) {
  absl::StatusOr<Uri> v = Uri::Parse(s);
  return u.has_value() && v.ok() && *u == *v;
}
VC_PROOF(fp, family_uri) {
  BrushCoat c{.tips = {BrushTip{}}};
  static const char* const kUri[] = {"/brush-family:a", "ink://reg/brush-family:b:3", "/texture:a", "nonsense", ""};
  int i = vc_choose("uri", 0, 4), tp = vc_choose("tip and paint", 0, 1);
  BrushTip tip{.pinch = 0.5f};
  absl::StatusOr<BrushFamily> f = tp ? BrushFamily::Create(tip, paint(0.5f), kUri[i], model(1))
                                     : BrushFamily::Create(absl::MakeConstSpan(&c, 1), kUri[i], model(1));
  vc_assert(f.ok() == (i != 2 && i != 3), "a family is accepted exactly for no identifier or that of a brush family");
  if (!f.ok()) return;
  vc_assert(i == 4 ? !f->GetUri().has_value() : same(f->GetUri(), kUri[i]), "a family returns its identifier");
  vc_assert(f->GetInputModel().index() == 1 && f->GetCoats().size() == 1 && f->GetCoats()[0].tips.size() == 1 &&
            f->GetCoats()[0].tips[0].pinch == (tp ? 0.5f : 0.f) && f->GetCoats()[0].paint.texture_layers.size() == static_cast<size_t>(tp), "a family returns what it was made from");
}
VC_PROOF(fp, family_uri_object) {
  absl::StatusOr<Uri> brush = Uri::Parse("/brush-family:a"), texture = Uri::Parse("/texture:a");
  int i = vc_choose("uri", 0, 2), tp = vc_choose("tip and paint", 0, 1);
  float pinch = vc_float("pinch"), opacity = vc_float("opacity");
  BrushTip tip{.pinch = pinch};
  BrushCoat c{.tips = {tip}, .paint = paint(opacity)};
  std::optional<Uri> u;
  if (i == 1) u = *brush;
  if (i == 2) u = *texture;
  absl::StatusOr<BrushFamily> f = tp ? BrushFamily::Create(tip, paint(opacity), u, model(0)) : BrushFamily::Create(absl::MakeConstSpan(&c, 1), u, model(0));
  vc_assert(f.ok() == ((i != 2) & prob(pinch) & prob(opacity)), "a family is accepted exactly for valid tip, paint and identifier");
  if (!f.ok()) return;
  vc_assert(f->GetUri().has_value() == (i == 1) && (i == 0 || *f->GetUri() == *brush) && f->GetInputModel().index() == 0, "a family returns its identifier and model");
  vc_assert(f->GetCoats().size() == 1 && f->GetCoats()[0].tips[0].pinch == pinch && f->GetCoats()[0].paint.texture_layers[0].opacity == opacity, "a family returns its tip and paint");
}
VC_PROOF(fp, family_copy) {
  BrushCoat c{.tips = {BrushTip{.pinch = 0.5f}}};
  absl::StatusOr<BrushFamily> f = BrushFamily::Create(absl::MakeConstSpan(&c, 1), "/brush-family:a");
  BrushFamily k = *f, d;
  vc_assert(d.GetCoats().size() == 1 && d.GetCoats()[0].tips.size() == 1 && !d.GetUri().has_value(), "the default family has one coat with one tip and no identifier");
  d = k;
  *f = BrushFamily();
  vc_assert(d.GetCoats().size() == 1 && d.GetCoats()[0].tips[0].pinch == 0.5f && same(d.GetUri(), "/brush-family:a"), "copies of a family are independent and equal");
}
static bool has(const std::vector<Id>& v, Id id) { bool f = false; for (Id i : v) f |= i == id; return f; }
VC_PROOF(fp, required_attributes) {
  BrushCoat c{.tips = {BrushTip{}}};
  int where = vc_choose("where", 0, 2);
  BrushBehavior::Target t = static_cast<BrushBehavior::Target>(vc_choose("target", 0, static_cast<int>(BrushBehavior::Target::kOpacityMultiplier)));
  for (int i = 0; i < 2; ++i) {
    BrushBehavior b;
    b.nodes.push_back(BrushBehavior::ConstantNode{1});
    b.nodes.push_back(BrushBehavior::TargetNode{i == where ? t : BrushBehavior::Target::kPinchOffset, {0, 1}});
    c.tips[0].behaviors.push_back(b);
  }
  bool shift = where < 2 && (t == BrushBehavior::Target::kHueOffsetInRadians || t == BrushBehavior::Target::kSaturationMultiplier || t == BrushBehavior::Target::kLuminosity);
  int winding = vc_choose("layers", 0, 2);
  if (winding) {
    c.paint = paint(1);
    c.paint.texture_layers.push_back(c.paint.texture_layers[0]);
    for (auto& l : c.paint.texture_layers) l.mapping = winding == 1 ? BrushPaint::TextureMapping::kWinding : BrushPaint::TextureMapping::kTiling;
  }
  std::vector<Id> ids = brush_internal::GetRequiredAttributeIds(c);
  for (Id id : {Id::kPosition, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kOpacityShift})
    vc_assert(has(ids, id), "every coat needs position, side, forward and opacity attributes");
  vc_assert(has(ids, Id::kColorShiftHsl) == shift, "colour shift is needed exactly when a behavior targets hue, saturation or luminosity");
  vc_assert(has(ids, Id::kSurfaceUv) == (winding == 1), "surface coordinates are needed exactly for winding textures");
  vc_assert(ids.size() == 6u + shift + (winding == 1), "no attribute is listed twice or without need");
}
