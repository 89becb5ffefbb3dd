// Brush paints: accepted exactly when every documented range holds; equality compares every field.
// VC-SOURCES: ink/brush/brush_family.cc ink/brush/brush_coat.cc ink/brush/brush_tip.cc ink/brush/brush_paint.cc ink/brush/brush_behavior.cc ink/brush/easing_function.cc ink/color/color.cc ink/color/color_space.cc ink/geometry/angle.cc ink/geometry/vec.cc ink/types/duration.cc ink/types/uri.cc
// VC-OPT: max_iter=64 nomerge=1 max_states=4000
// VC-BOUND: up to 4 texture layers and 3 keyframes; everything else is unbounded
#include "vc.h"
#include "ink/brush/brush_paint.h"
#include "ink/types/uri.h"
using namespace ink;
using brush_internal::ValidateBrushPaint;
using brush_internal::ValidateBrushPaintTextureLayer;
using P = BrushPaint;
static bool in(float x, float lo, float hi) { return (x >= lo) & (x <= hi); }
static bool pos(float x) { return vc_finite(x) & (x > 0); }
static bool prob(float x) { return in(x, 0, 1); }
static bool prob(Vec v) { return prob(v.x) & prob(v.y); }
static bool pos(Vec v) { return pos(v.x) & pos(v.y); }
static bool fin(Vec v) { return vc_finite(v.x) & vc_finite(v.y); }
static Vec vec(const char* n) { return Vec{vc_float(n), vc_float(n)}; }
static Angle ang(const char* n) { return Angle::Radians(vc_float(n)); }
static Uri uri(const char* s) { absl::StatusOr<Uri> u = Uri::Parse(s); vc_assert(u.ok(), "the test URI parses"); return *u; }
static P::TextureLayer plain() { P::TextureLayer l; l.color_texture_uri = uri("/texture:a"); return l; }
static bool is(int v, int count) { return (v >= 0) & (v < count); }

VC_PROOF(fp, layer_numbers) {
  P::TextureLayer l = plain();
  l.size = vec("size"); l.offset = vec("offset"); l.rotation = ang("rotation");
  l.size_jitter = vec("sj"); l.offset_jitter = vec("oj"); l.rotation_jitter = ang("rj");
  l.opacity = vc_float("opacity");
  bool legal = pos(l.size) & fin(l.offset) & vc_finite(l.rotation.ValueInRadians()) & in(l.size_jitter.x, 0, l.size.x) &
               in(l.size_jitter.y, 0, l.size.y) & prob(l.offset_jitter) & vc_finite(l.rotation_jitter.ValueInRadians()) & prob(l.opacity);
  bool ok = ValidateBrushPaintTextureLayer(l).ok();
  vc_assert(ok == legal, "a texture layer is accepted exactly when every number is in its documented range");
  P p;
  p.texture_layers.push_back(l);
  vc_assert(ValidateBrushPaint(p).ok() == ok, "a paint with one layer is accepted exactly when the layer is");
}
VC_PROOF(fp, layer_enums) {
  P::TextureLayer l = plain();
  vc_assert(ValidateBrushPaintTextureLayer(l).ok(), "a default layer with a texture is accepted");
  int m = vc_i32("mapping"), o = vc_i32("origin"), u = vc_i32("unit"), x = vc_i32("wx"), y = vc_i32("wy"), b = vc_i32("blend");
  l.mapping = static_cast<P::TextureMapping>(m);
  l.origin = static_cast<P::TextureOrigin>(o);
  l.size_unit = static_cast<P::TextureSizeUnit>(u);
  l.wrap_x = static_cast<P::TextureWrap>(x);
  l.wrap_y = static_cast<P::TextureWrap>(y);
  l.blend_mode = static_cast<P::BlendMode>(b);
  bool ok = ValidateBrushPaintTextureLayer(l).ok();
  vc_assert(!ok | is(m, 2), "the mapping is an enumerator");
  vc_assert(!ok | is(o, 3), "the origin is an enumerator");
  vc_assert(!ok | is(u, 3), "the size unit is an enumerator");
  vc_assert(!ok | (is(x, 3) & is(y, 3)), "the wrap modes are enumerators");
  vc_assert(!ok | is(b, 12), "the blend mode is an enumerator");
  vc_assert(ok | !(is(m, 2) & is(o, 3) & is(u, 3) & is(x, 3) & is(y, 3) & is(b, 12)), "every combination of enumerators is accepted");
}
VC_PROOF(fp, layer_uri) {
  P::TextureLayer l;
  vc_assert(!ValidateBrushPaintTextureLayer(l).ok(), "a layer without texture is rejected");
  l.color_texture_uri = uri("/brush-family:a");
  vc_assert(!ValidateBrushPaintTextureLayer(l).ok(), "a layer naming another kind of asset is rejected");
}
static P::TextureKeyframe frame(const char*, bool s, bool o, bool r, bool a) {
  P::TextureKeyframe k{.progress = vc_float("progress")};
  if (s) k.size = vec("size");
  if (o) k.offset = vec("offset");
  if (r) k.rotation = ang("rotation");
  if (a) k.opacity = vc_float("opacity");
  return k;
}
static bool legal(const P::TextureKeyframe& k) {
  bool l = prob(k.progress);
  if (k.size) l = l & pos(*k.size);
  if (k.offset) l = l & prob(*k.offset);
  if (k.rotation) l = l & vc_finite(k.rotation->ValueInRadians());
  if (k.opacity) l = l & prob(*k.opacity);
  return l;
}
VC_PROOF(fp, keyframe) {
  int m = vc_choose("fields", 0, 15);
  P::TextureLayer l = plain();
  l.keyframes.push_back(frame("k", m & 1, m & 2, m & 4, m & 8));
  vc_assert(ValidateBrushPaintTextureLayer(l).ok() == legal(l.keyframes[0]), "a keyframe is accepted exactly when every value it has is in its range");
}
VC_PROOF(fp, keyframes) {
  P::TextureLayer l = plain();
  bool want = true;
  int n = vc_choose("n", 0, 3);
  for (int i = 0; i < n; ++i) { l.keyframes.push_back(frame("k", false, false, false, i == 1)); want = want & legal(l.keyframes[i]); }
  vc_assert(ValidateBrushPaintTextureLayer(l).ok() == want, "a layer is accepted exactly when all its keyframes are");
}
VC_PROOF(fp, layers) {
  P p;
  vc_assert(ValidateBrushPaint(p).ok(), "a paint without layers is accepted");
  int n = vc_choose("n", 1, 4);
  bool want = true;
  int first = 0;
  for (int i = 0; i < n; ++i) {
    P::TextureLayer l = plain();
    l.opacity = vc_float("opacity");
    bool w = vc_bool("winding");
    l.mapping = w ? P::TextureMapping::kWinding : P::TextureMapping::kTiling;
    if (i == 0) first = w;
    want = want & prob(l.opacity) & (w == first);
    p.texture_layers.push_back(l);
  }
  vc_assert(ValidateBrushPaint(p).ok() == want, "a paint is accepted exactly when all layers are and they agree on the mapping");
}
static bool eq(Vec a, Vec b) { return (a.x == b.x) & (a.y == b.y); }
static bool eq(Angle a, Angle b) { return a.ValueInRadians() == b.ValueInRadians(); }
VC_PROOF(fp, layer_equality) {
  P::TextureLayer a = plain(), b = plain();
  P::TextureLayer* ls[2] = {&a, &b};
  for (P::TextureLayer* l : ls) {
    l->size = vec("size"); l->offset = vec("offset"); l->rotation = ang("rotation");
    l->size_jitter = vec("sj"); l->offset_jitter = vec("oj"); l->rotation_jitter = ang("rj");
    l->opacity = vc_float("opacity");
    l->mapping = static_cast<P::TextureMapping>(vc_i32("mapping"));
    l->origin = static_cast<P::TextureOrigin>(vc_i32("origin"));
    l->size_unit = static_cast<P::TextureSizeUnit>(vc_i32("unit"));
    l->wrap_x = static_cast<P::TextureWrap>(vc_i32("wx"));
    l->wrap_y = static_cast<P::TextureWrap>(vc_i32("wy"));
    l->blend_mode = static_cast<P::BlendMode>(vc_i32("blend"));
  }
  bool same = eq(a.size, b.size) & eq(a.offset, b.offset) & eq(a.rotation, b.rotation) & eq(a.size_jitter, b.size_jitter) &
              eq(a.offset_jitter, b.offset_jitter) & eq(a.rotation_jitter, b.rotation_jitter) & (a.opacity == b.opacity) &
              (a.mapping == b.mapping) & (a.origin == b.origin) & (a.size_unit == b.size_unit) & (a.wrap_x == b.wrap_x) &
              (a.wrap_y == b.wrap_y) & (a.blend_mode == b.blend_mode);
  vc_assert((a == b) == same, "texture layers are equal exactly when all their parameters are");
}
VC_PROOF(fp, equality) {
  P::TextureLayer a = plain(), b = plain();
  vc_assert(a == b && !(a != b), "equal layers are equal");
  b.color_texture_uri = uri("/texture:b");
  vc_assert(a != b, "layers with different textures differ");
  b = a;
  b.keyframes.push_back({.progress = 0});
  vc_assert(a != b, "layers with different keyframes differ");
  P p, q;
  vc_assert(p == q && !(p != q), "empty paints are equal");
  p.texture_layers.push_back(a);
  vc_assert(p != q && !(p == q), "paints with different layer counts differ");
  q.texture_layers.push_back(b);
  vc_assert(p != q, "paints with different layers differ");
}
VC_PROOF(fp, keyframe_equality) {
  int m = vc_choose("fields", 0, 15), d = vc_choose("drop", 0, 4);
  P::TextureKeyframe a = frame("a", m & 1, m & 2, m & 4, m & 8);
  int o = d == 4 ? m : m ^ (1 << d);  // b lacks or has in addition one field, or has the same ones
  P::TextureKeyframe b = frame("b", o & 1, o & 2, o & 4, o & 8);
  bool same = (m == o) & (a.progress == b.progress);
  if (m == o && (m & 1)) same = same & eq(*a.size, *b.size);
  if (m == o && (m & 2)) same = same & eq(*a.offset, *b.offset);
  if (m == o && (m & 4)) same = same & eq(*a.rotation, *b.rotation);
  if (m == o && (m & 8)) same = same & (*a.opacity == *b.opacity);
  vc_assert((a == b) == same && (a != b) == !same, "keyframes are equal exactly when they have the same fields with equal values");
}
