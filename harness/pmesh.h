// Small meshes and shapes.
#ifndef VC_PMESH_H_
#define VC_PMESH_H_
#include "geo.h"
#include <cstdint>
#include <optional>
#include <vector>
#include "absl/types/span.h"
#include "ink/geometry/internal/intersects_internal.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/partitioned_mesh.h"
using F = MeshFormat;
using Ty = F::AttributeType;
using Id = F::AttributeId;
using Floats = absl::Span<const float>;
using Shape = PartitionedMesh;
using Outline = absl::Span<const Shape::VertexIndexPair>;
inline F plain() { return *F::Create({{Ty::kFloat2Unpacked, Id::kPosition}}, F::IndexFormat::k16BitUnpacked16BitPacked); }
inline F with_label() { return *F::Create({{Ty::kFloat2Unpacked, Id::kPosition}, {Ty::kFloat1Unpacked, Id::kCustom1}}, F::IndexFormat::k16BitUnpacked16BitPacked); }
// n vertices (x[i], y[i]), m / 3 triangles
inline Mesh mesh_of(const F& format, const float* x, const float* y, int n, const uint32_t* index, int m) {
  Floats spans[3] = {Floats(x, n), Floats(y, n), Floats(x, n)};
  return *Mesh::Create(format, absl::Span<const Floats>(spans, format.Attributes().size() + 1), absl::Span<const uint32_t>(index, m));
}
#endif
