MESH = ['ink/geometry/' + x + '.cc' for x in ('mesh', 'mesh_format', 'mutable_mesh', 'triangle', 'envelope', 'rect', 'vec', 'angle', 'segment', 'quad', 'affine_transform')] + ['ink/geometry/internal/mesh_packing.cc', 'ink/geometry/internal/algorithms.cc', 'ink/geometry/internal/intersects_internal.cc']
SHAPE = MESH + ['ink/geometry/partitioned_mesh.cc', 'ink/geometry/internal/static_rtree.cc']
SIB = ['ink/strokes/input/stroke_input_batch.cc', 'ink/strokes/input/stroke_input.cc', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc', 'ink/geometry/angle.cc', 'ink/geometry/vec.cc', 'ink/geometry/affine_transform.cc', 'ink/geometry/segment.cc', 'ink/geometry/triangle.cc', 'ink/geometry/rect.cc', 'ink/geometry/quad.cc', 'ink/types/duration.cc', 'ink/types/physical_distance.cc']
BRUSH = ['ink/brush/' + x + '.cc' for x in ('brush', 'brush_family', 'brush_coat', 'brush_tip', 'brush_paint', 'brush_behavior', 'easing_function')] + ['ink/color/color.cc', 'ink/color/color_space.cc', 'ink/geometry/angle.cc', 'ink/geometry/vec.cc', 'ink/types/duration.cc', 'ink/types/uri.cc']
TIP = BRUSH + ['ink/strokes/internal/' + x + '.cc' for x in ('brush_tip_modeler_helpers', 'brush_tip_state', 'easing_implementation')] + ['ink/geometry/internal/algorithms.cc', 'ink/geometry/internal/intersects_internal.cc', 'ink/geometry/envelope.cc', 'ink/geometry/rect.cc', 'ink/geometry/quad.cc', 'ink/geometry/triangle.cc', 'ink/geometry/affine_transform.cc', 'ink/geometry/mutable_mesh.cc', 'ink/geometry/mesh.cc', 'ink/geometry/mesh_format.cc', 'ink/geometry/internal/mesh_packing.cc', 'ink/geometry/segment.cc', 'ink/types/physical_distance.cc']
STRIP = '''
static Mesh Strip(int n) {
  std::vector<float> x, y; std::vector<uint32_t> t;
  for (int i = 0; i < n + 2; ++i) { x.push_back(i); y.push_back(i & 1); }
  for (uint32_t i = 0; i < (uint32_t)n; ++i) { t.push_back(i); t.push_back(i & 1 ? i + 2 : i + 1); t.push_back(i & 1 ? i + 1 : i + 2); }
  return *Mesh::Create(MeshFormat(), {x, y}, t);
}
'''
seed('S11', 'P26', [('ink/geometry/internal/static_rtree.h', '''          !VisitIntersectedElementsInSubTree(branch_idx, bounds, visitor)) {
        return false;''', '''          !VisitIntersectedElementsInSubTree(branch_idx, bounds, visitor)) {
        break;''')],
     HD + '''#include <vector>
#include "ink/geometry/internal/static_rtree.h"
using namespace ink; using ink::geometry_internal::StaticRTree;
int main() { for (int n : {10, 20, 300}) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i);
  StaticRTree<int> t(v, [](int i) { return Rect::FromTwoPoints({(float)i, 0}, {i + 1.f, 1}); });
  for (int k = 1; k < n; k += 7) { int seen = 0; t.VisitIntersectedElements(Rect::FromTwoPoints({-1, -1}, {1000, 2}), [&](int) { return ++seen < k; }); CHECKV(seen == k); } }
  return 0; }
''', MESH + ['ink/geometry/internal/static_rtree.cc'], 'an index of more than 256 elements, and a visitor that stops early', 'elements are visited after the visitor asked to stop, because an inner level of the tree swallows the stop', libs=ABSL)
seed('S12', 'P27', [('ink/geometry/partitioned_mesh.cc', '''        if (group.outlines[o_idx][v_idx].vertex_index >=
            group.meshes[group.outlines[o_idx][v_idx].mesh_index]
                .VertexCount()) {''', '''        if (group.outlines[o_idx][v_idx].vertex_index >=
            group.meshes.front().VertexCount()) {''')],
     HD + '''#include <vector>
#include "ink/geometry/partitioned_mesh.h"
using namespace ink;''' + STRIP + '''
static bool Ok(int a, int b, std::vector<PartitionedMesh::VertexIndexPair> o) { std::vector<Mesh> m{Strip(a), Strip(b)}; std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>> os{o}; PartitionedMesh::MeshGroup g{.meshes = m, .outlines = os}; return PartitionedMesh::FromMeshGroups({g}).ok(); }
int main() { CHECKV(Ok(3, 1, {{0, 4}, {1, 2}})); CHECKV(!Ok(3, 1, {{0, 4}, {1, 3}})); CHECKV(Ok(1, 3, {{0, 2}, {1, 4}})); CHECKV(!Ok(1, 3, {{0, 3}})); return 0; }
''', SHAPE, 'a group of two meshes of different sizes and an outline through the second', 'an outline may name a vertex its mesh does not have (and a valid one is refused)', libs=ABSL)
seed('S13', 'P24', [('ink/geometry/mutable_mesh.cc', 'if (indices[0] == indices[1] || indices[0] == indices[2] ||\n        indices[1] == indices[2])', 'if (indices[0] == indices[1] || indices[0] == indices[2])')],
     HD + '''#include "ink/geometry/mutable_mesh.h"
using namespace ink;
int main() { MutableMesh m; for (int i = 0; i < 4; ++i) m.AppendVertex({(float)i, (float)(i * i)}); m.AppendTriangleIndices({0, 1, 2}); CHECKV(m.ValidateTriangles().ok()); m.AppendTriangleIndices({3, 1, 1}); CHECKV(!m.ValidateTriangles().ok()); return 0; }
''', MESH, 'a triangle whose second and third indices coincide', 'a degenerate triangle passes validation', libs=ABSL)
seed('S14', 'P25', [('ink/geometry/internal/mesh_packing.cc', '''          absl::c_count_if(mesh_tri, [&mesh_idx_to_partition_idx](uint32_t i) {
            return !mesh_idx_to_partition_idx.contains(i);
          });''', '''          absl::c_count_if(mesh_tri, [&mesh_idx_to_partition_idx](uint32_t i) {
            return !mesh_idx_to_partition_idx.contains(i);
          });
      if (n_new_vertices == 1) n_new_vertices = 0;''')],
     HD + '''#include <vector>
#include <cstring>
#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
int main() { std::vector<uint16_t> t; for (uint16_t i = 0; i < 20; ++i) { t.push_back(i); t.push_back(i + 1); t.push_back(i + 2); }
  std::vector<std::byte> b(t.size() * 2); std::memcpy(b.data(), t.data(), b.size());
  for (unsigned lim : {3u, 4u, 7u, 9u}) { size_t n = 0; auto r = mesh_internal::PartitionTriangles(b, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked, lim);
    for (auto& p : r) { CHECKV(p.vertex_indices.size() <= lim); n += p.triangles.size(); } CHECKV(n == 20); }
  return 0; }
''', MESH, 'a triangle bringing exactly one new vertex to a full partition', 'a partition exceeds its vertex limit', libs=ABSL)
seed('S15', 'P21', [('ink/geometry/internal/mesh_packing.cc', 'static_cast<std::byte>(((packed1 & 0x0F) << 4) + (packed2 >> 6));', 'static_cast<std::byte>(((packed1 & 0x0F) << 4) | (packed2 >> 5));')],
     HD + '''#include "ink/geometry/internal/mesh_packing.h"
using namespace ink;
int main() { auto ty = MeshFormat::AttributeType::kFloat3PackedIn4UnsignedBytes_XYZ10; MeshAttributeCodingParams p{.components = {{.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}, {.offset = 0, .scale = 1}}};
  for (uint32_t z : {0u, 5u, 31u, 33u, 700u, 1023u}) { std::byte b[4]; mesh_internal::PackAttribute(ty, p, {1023.f, 16.f, (float)z}, b); auto v = mesh_internal::UnpackIntegersFromPackedAttribute(ty, b); CHECKV(v[0] == 1023); CHECKV(v[1] == 16); CHECKV(v[2] == z); }
  return 0; }
''', MESH, 'a third component above 31 in the 10-bit format', 'a high bit of the third component lands in the second', libs=ABSL)
seed('S16', 'P20', [('ink/geometry/mesh_format.cc', '''  if (ComponentCount(attributes[position_attribute_index].first) != 2) {''', '''  if (position_attribute_index < 8 &&
      ComponentCount(attributes[position_attribute_index].first) != 2) {''')],
     HD + '''#include <vector>
#include "ink/geometry/mesh_format.h"
using namespace ink; using T = MeshFormat::AttributeType; using I = MeshFormat::AttributeId;
int main() { std::vector<std::pair<T, I>> a; for (int i = 0; i < 9; ++i) a.push_back({T::kFloat1Unpacked, (I)((int)I::kCustom0 + i)});
  a.push_back({T::kFloat2Unpacked, I::kPosition}); CHECKV(MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked).ok());
  a.back().first = T::kFloat3Unpacked; CHECKV(!MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked).ok());
  std::swap(a[0], a.back()); CHECKV(!MeshFormat::Create(a, MeshFormat::IndexFormat::k32BitUnpacked16BitPacked).ok()); return 0; }
''', MESH, 'a position attribute late in the list with three components', 'a format with an unsuitable position attribute is accepted', libs=ABSL)
seed('S17', 'P40', [('ink/strokes/input/stroke_input_batch.cc', 'if (i + 1 < Size()) {', 'if (i + 2 < Size()) {')],
     HD + '''#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
static StrokeInput In(float x, float t) { return {.position = {x, 0}, .elapsed_time = Duration32::Seconds(t)}; }
int main() { StrokeInputBatch b; for (int i = 0; i < 4; ++i) CHECKV(b.Append(In(i, i)).ok());
  CHECKV(!b.Set(1, In(9, 2.5)).ok()); CHECKV(!b.Set(2, In(9, 3.5)).ok()); CHECKV(b.Get(2).position.x == 2); CHECKV(b.Set(3, In(9, 9)).ok()); CHECKV(b.Set(2, In(9, 8)).ok()); return 0; }
''', SIB, 'overwriting the last but one input with a time after the last', 'the batch holds decreasing times', libs=ABSL)
seed('S18', 'P41', [('ink/strokes/input/stroke_input_batch.cc', '''  if (Size() == 1) {
    Clear();
    if (!data_.HasValue()) data_.Emplace();
    SetInlineFormatMetadata(input);
    AppendInputToFloatVector(input, data_.MutableValue());
    size_ = 1;
    return absl::OkStatus();
  }''', '''  if (Size() == 1 && FloatsPerInput() != FloatsPerInput(input)) {
    Clear();
    if (!data_.HasValue()) data_.Emplace();
    SetInlineFormatMetadata(input);
    AppendInputToFloatVector(input, data_.MutableValue());
    size_ = 1;
    return absl::OkStatus();
  }''')],
     HD + '''#include "ink/strokes/input/stroke_input_batch.h"
using namespace ink;
static bool Eq(const StrokeInput& a, const StrokeInput& b) { return a.position == b.position && a.elapsed_time == b.elapsed_time && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation && a.tool_type == b.tool_type; }
int main() { StrokeInputBatch b; StrokeInput p{.position = {1, 2}, .pressure = .5f}, q{.position = {3, 4}, .pressure = .75f}, t{.position = {3, 4}, .tilt = kQuarterTurn / 2};
  CHECKV(b.Append(p).ok()); CHECKV(b.Set(0, q).ok()); CHECKV(Eq(b.Get(0), q)); CHECKV(b.Set(0, StrokeInput{}).ok()); CHECKV(Eq(b.Get(0), StrokeInput{})); CHECKV(b.Set(0, p).ok());
  CHECKV(b.Set(0, t).ok()); CHECKV(Eq(b.Get(0), t)); CHECKV(b.HasTilt() && !b.HasPressure()); return 0; }
''', SIB, 'overwriting the only input of a batch with one that has a different optional property but as many of them', 'the stored input is read back with the wrong property', libs=ABSL)
seed('S19', 'P13', [('ink/geometry/envelope.h', '''    rect_ = Rect::FromTwoPoints(t.p0, t.p1);
    rect_->Join(t.p2);
  } else {
    rect_->Join(t.p0);
    rect_->Join(t.p1);
    rect_->Join(t.p2);''', '''    rect_ = Rect::FromTwoPoints(t.p0, t.p1);
    rect_->Join(t.p2);
  } else if (!rect_->Contains(t.p0) || !rect_->Contains(t.p1)) {
    rect_->Join(t.p0);
    rect_->Join(t.p1);
    rect_->Join(t.p2);''')],
     HD + '''#include "ink/geometry/envelope.h"
using namespace ink;
int main() { Envelope e(Triangle{{0, 0}, {4, 0}, {0, 4}}); CHECKV(e.AsRect()->XMax() == 4); e.Add(Triangle{{1, 1}, {9, 1}, {1, 2}}); CHECKV(e.AsRect()->XMax() == 9); e.Add(Triangle{{1, 1}, {2, 1}, {1, 20}}); CHECKV(e.AsRect()->YMax() == 20); return 0; }
''', GEO + ['ink/geometry/envelope.cc'], 'a triangle added to a non-empty envelope that already contains its first two corners', 'the third corner is left outside', libs=ABSL)
seed('S20', 'P02', [('ink/types/internal/copy_on_write.h', 'bool IsShared() const { return value_.use_count() > 1; }', 'bool IsShared() const { return value_.use_count() > 2; }')],
     HD + '''#include <vector>
#include "ink/types/internal/copy_on_write.h"
using C = ink_internal::CopyOnWrite<std::vector<int>>;
int main() { C a(std::vector<int>{1, 2}), b = a; { C c = b; CHECKV(c.IsShared()); c.MutableValue()[0] = 7; CHECKV((*a)[0] == 1); } b.MutableValue()[1] = 5; CHECKV((*a)[1] == 2); CHECKV((*b)[1] == 5); return 0; }
''', [], 'a value shared by exactly two owners', 'writing through one copy is visible through the other', libs=ABSL)
seed('S21', 'P42', [('ink/brush/brush.cc', '''  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);
      !status.ok()) {
    return status;
  }
  epsilon_ = epsilon;
  return absl::OkStatus();''', '''  if (epsilon > epsilon_) {
    if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);
        !status.ok()) {
      return status;
    }
  }
  epsilon_ = epsilon;
  return absl::OkStatus();'''), ('ink/brush/brush.cc', '''  if (status = ValidateBrushSizeRelativeToEpsilon(size, epsilon_);
      !status.ok()) {
    return status;
  }
  size_ = size;''', '''  if (size > size_) {
    if (status = ValidateBrushSizeRelativeToEpsilon(size, epsilon_);
        !status.ok()) {
      return status;
    }
  }
  size_ = size;''')],
     HD + '''#include "ink/brush/brush.h"
using namespace ink;
int main() { Brush b = *Brush::Create(BrushFamily(), Color::Black(), 10, 1); CHECKV(!b.SetEpsilon(11).ok()); CHECKV(b.SetSize(20).ok()); CHECKV(b.SetEpsilon(15).ok()); CHECKV(!b.SetSize(14).ok()); CHECKV(b.GetSize() == 20); return 0; }
''', BRUSH, 'shrinking a brush below its precision', 'the brush ends with a precision above its size', libs=ABSL)
seed('S22', 'P44', [('ink/strokes/internal/easing_implementation.cc', '''    } else if (linear.points[i].x == 1 && linear_implementation_size >= 1 &&
               linear_implementation.points.back().x == 1.f) {
      break;''', '''    } else if (linear_implementation_size >= 1 &&
               linear_implementation.points.back().x == 1.f) {
      linear_implementation.points.back() = linear.points[i];''')],
     HD + '''#include "ink/strokes/internal/easing_implementation.h"
using namespace ink;
int main() { strokes_internal::EasingImplementation e(EasingFunction{EasingFunction::Linear{{{0, 0}, {.5f, .25f}, {1, .5f}, {1, .75f}}}}); CHECKV(std::fabs(e.GetY(.75f) - .375f) < 1e-6f); CHECKV(std::fabs(e.GetY(.5f) - .25f) < 1e-6f); return 0; }
''', TIP, 'a piecewise-linear easing with two points at x = 1', 'the last segment leads to the second of the two points', libs=ABSL)
seed('S23', 'P46', [('ink/strokes/internal/stroke_vertex.cc', '''                       std::floor(LinearMap(
                           std::clamp(margin_fraction, 0.f, kMaximumMargin),''', '''                       std::floor(LinearMap(
                           std::min(std::abs(margin_fraction), kMaximumMargin),''')],
     HD + '''#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink; using L = strokes_internal::StrokeVertex::Label;
int main() { L l{.encoded_value = 1}; CHECKV(l.WithMargin(-.5f).DecodeMargin() == 0); CHECKV(l.WithMargin(0).DecodeMargin() == 0); CHECKV(l.WithMargin(.5f).DecodeMargin() > .4f); return 0; }
''', ['ink/strokes/internal/stroke_vertex.cc'] + MESH, 'a negative margin', 'the margin is reflected instead of clamped to zero', libs=ABSL)
seed('S24', 'P50', [('ink/rendering/bitmap.cc', '''  size_t expected_data_size = static_cast<size_t>(bitmap.width()) *
                              static_cast<size_t>(bitmap.height()) *''', '''  size_t expected_data_size = static_cast<uint32_t>(bitmap.width()) *
                              static_cast<uint32_t>(bitmap.height()) *''')],
     HD + '''#include "ink/rendering/bitmap.h"
using namespace ink;
int main() { VectorBitmap small(2, 3, Bitmap::PixelFormat::kRgba8888, Color::Format::kGammaEncoded, ColorSpace::kSrgb, std::vector<uint8_t>(24)); CHECKV(rendering_internal::ValidateBitmap(small).ok());
  VectorBitmap big(65536, 65537, Bitmap::PixelFormat::kRgba8888, Color::Format::kGammaEncoded, ColorSpace::kSrgb, std::vector<uint8_t>(65536 * 4)); CHECKV(!rendering_internal::ValidateBitmap(big).ok()); return 0; }
''', ['ink/rendering/bitmap.cc', 'ink/color/color.cc', 'ink/color/color_space.cc'], 'a bitmap of more than 2^32 pixels', 'the expected size wraps around and too little data is accepted', libs=ABSL)
seed('S25', 'P23', [('ink/geometry/mesh.cc', '[n_vertices](uint32_t i) { return i < n_vertices; })) {', '[n_vertices](uint16_t i) { return i < n_vertices; })) {')],
     HD + '''#include <vector>
#include "ink/geometry/mesh.h"
using namespace ink;
int main() { std::vector<float> x{0, 1, 0}, y{0, 0, 1}; CHECKV(Mesh::Create(MeshFormat(), {x, y}, {0, 1, 2}).ok()); CHECKV(!Mesh::Create(MeshFormat(), {x, y}, {0, 1, 3}).ok()); CHECKV(!Mesh::Create(MeshFormat(), {x, y}, {0, 1, 65537}).ok()); return 0; }
''', MESH, 'a triangle index whose low 16 bits name an existing vertex', 'a mesh is created from an index out of range', libs=ABSL)
seed('S26', 'P15', [('ink/geometry/quad.h', '''inline void Quad::SetShearFactor(float shear_factor) {
  if (shear_factor == shear_factor_) {
    return;
  }
  semi_axes_.reset();''', '''inline void Quad::SetShearFactor(float shear_factor) {
  if (shear_factor == shear_factor_) {
    return;
  }
  if (height_ != 0 && shear_factor_ != 0) semi_axes_.reset();''')],
     HD + '''#include "ink/geometry/quad.h"
using namespace ink;
int main() { Quad q = Quad::FromCenterAndDimensions({0, 0}, 2, 2); q.SetShearFactor(1); CHECKV(q.Corners()[2].x == 2); Quad r = Quad::FromCenterAndDimensions({0, 0}, 2, 2); CHECKV(r.Corners()[2].x == 1); r.SetShearFactor(1); CHECKV(r.Corners()[2].x == 2); return 0; }
''', GEO, 'reading the corners of an unsheared quad and then shearing it', 'the corners come from stale cached semi-axes', libs=ABSL)
seed('S27', 'P43', [('ink/brush/brush_paint.cc', '''keyframe.offset->y >= 0.0f && keyframe.offset->y <= 1.0f)) {''', '''keyframe.offset->y >= 0.0f && keyframe.offset->x <= 1.0f)) {''')],
     HD + '''#include "ink/brush/brush_paint.h"
using namespace ink;
int main() { BrushPaint::TextureLayer l{.color_texture_uri = *Uri::Parse("ink://ink/texture:test"), .size = {1, 1}}; l.keyframes.push_back({.progress = .5f, .offset = Vec{.5f, 1}}); CHECKV(brush_internal::ValidateBrushPaintTextureLayer(l).ok());
  l.keyframes[0].offset = Vec{.5f, 3}; CHECKV(!brush_internal::ValidateBrushPaintTextureLayer(l).ok()); return 0; }
''', BRUSH, 'a texture keyframe whose vertical offset exceeds one', 'a keyframe offset out of range is accepted', libs=ABSL)
seed('S28', 'P45', [('ink/strokes/internal/brush_tip_modeler_helpers.cc', '''  // If the modifier is non-finite (e.g. overflow to infinity), treat the result
  // as null.
  if (!std::isfinite(modifier)) return;''', '''  // If the modifier is NaN, treat the result as null.
  if (std::isnan(modifier)) return;''')],
     HD + '''#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
using namespace ink; using namespace ink::strokes_internal;
int main() { StrokeInputModeler::State s; ModeledStrokeInput in; std::vector<float> st{3e38f}; float damp[1] = {0}, mod[1] = {2}; BehaviorNodeContext c{.input_modeler_state = s, .current_input = in, .brush_size = 1, .stack = st, .damped_values = damp, .target_modifiers = mod};
  ProcessBehaviorNode(TargetNodeImplementation{.target_index = 0, .target_modifier_range = {0, 3e38f}}, c); CHECKV(mod[0] == 2); CHECKV(st.empty()); return 0; }
''', TIP, 'a behaviour value that overflows in the target mapping', 'an infinite modifier is stored instead of being treated as null', libs=ABSL)
seed('S29', 'P04', [('ink/types/uri.cc', 'absl::ascii_islower(c) || c == \'-\'', 'absl::ascii_islower(c) || (c & 0x5f) == \'\\r\'')],
     HD + '''#include "ink/types/uri.h"
using namespace ink;
int main() { CHECKV(Uri::Parse("ink://my-authority/texture:my-name").ok()); CHECKV(Uri::Parse("ink://ink/brush-family:marker:1").ok()); CHECKV(!Uri::Parse("ink://in\\rk/texture:name").ok()); CHECKV(!Uri::Parse("ink://ink/texture:na\\rme").ok()); return 0; }
''', ['ink/types/uri.cc'], 'a carriage return in the authority or the name', 'a control character is accepted', libs=ABSL)
