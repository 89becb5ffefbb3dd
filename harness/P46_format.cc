// Finding the attributes of a stroke mesh in an arbitrary format.
// VC-SOURCES: ink/strokes/internal/stroke_vertex.cc ink/geometry/mesh_format.cc ink/geometry/mutable_mesh.cc ink/geometry/internal/mesh_packing.cc ink/geometry/internal/algorithms.cc ink/geometry/segment.cc ink/geometry/vec.cc ink/geometry/angle.cc
// VC-OPT: nomerge=1 joinequal=1 max_states=4000 max_iter=64
#include "vc.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace ink;
using namespace ink::strokes_internal;
using V = StrokeVertex;
VC_PROOF(fp, some_attribute_indices) {
  using A = MeshFormat::AttributeId;
  int rot = vc_choose("rotation", 0, 7), n = vc_choose("n", 1, 7);
  const A ids[] = {A::kOpacityShift, A::kColorShiftHsl, A::kSideDerivative, A::kSideLabel, A::kForwardDerivative, A::kForwardLabel, A::kSurfaceUv, A::kPosition};
  const MeshFormat::AttributeType one = MeshFormat::AttributeType::kFloat1Unpacked, two = MeshFormat::AttributeType::kFloat2Unpacked;
  std::vector<std::pair<MeshFormat::AttributeType, A>> v;
  int want[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
  v.push_back({two, A::kPosition});
  want[7] = 0;
  for (int i = 0; i < n; ++i) {
    int q = (rot + i) % 8;
    if (q == 7) continue;
    want[q] = v.size();
    v.push_back({one, ids[q]});
  }
  auto f = MeshFormat::Create(absl::MakeConstSpan(v), MeshFormat::IndexFormat::k32BitUnpacked16BitPacked);
  vc_assert(f.ok(), "the format is accepted");
  V::FormatAttributeIndices x = V::FindAttributeIndices(*f);
  vc_assert(x.position == 0 && x.opacity_shift == want[0] && x.hsl_shift == want[1] && x.side_derivative == want[2] && x.side_label == want[3] && x.forward_derivative == want[4] && x.forward_label == want[5] &&
            x.surface_uv == want[6], "every attribute is found at its index, missing ones are -1");
}
