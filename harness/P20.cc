// Mesh formats: accepted exactly when valid; attributes occupy disjoint ranges.
// VC-SOURCES: ink/geometry/mesh_format.cc
// VC-OPT: nomerge=1 joinequal=1 branch_check=always max_states=4000 max_iter=64
// VC-BOUND: formats of up to 2 arbitrary attributes, and of every length up to the maximum with attributes of one type
#include "vc.h"
#include <utility>
#include "absl/types/span.h"
#include "ink/geometry/mesh_format.h"
using namespace ink;
using F = MeshFormat;
using Ty = F::AttributeType;
using Id = F::AttributeId;
using Pair = std::pair<Ty, Id>;
static const F::IndexFormat kI[] = {F::IndexFormat::k16BitUnpacked16BitPacked, F::IndexFormat::k32BitUnpacked16BitPacked};
// The documented layout of each type: components, bytes packed, bits per component (0: unpacked), packed into floats.
struct Layout { int n, bytes, bits[4], is_float; };
static const Layout kLayout[14] = {
    {1, 4, {0}, 0}, {1, 1, {8}, 0},
    {2, 8, {0}, 0}, {2, 4, {12, 12}, 1}, {2, 3, {12, 12}, 0}, {2, 4, {12, 20}, 0},
    {3, 12, {0}, 0}, {3, 4, {8, 8, 8}, 1}, {3, 8, {16, 16, 16}, 1}, {3, 4, {10, 10, 10}, 0},
    {4, 16, {0}, 0}, {4, 4, {6, 6, 6, 6}, 1}, {4, 8, {12, 12, 12, 12}, 1}, {4, 12, {18, 18, 18, 18}, 1}};
static_assert(static_cast<int>(Ty::kFloat4PackedIn3Floats) == 13 && static_cast<int>(Id::kCustom9) == 18);

VC_PROOF(fp, types) {
  int k = vc_choose("type", 0, 13);
  Ty t = static_cast<Ty>(k);
  const Layout& l = kLayout[k];
  vc_assert(F::ComponentCount(t) == l.n, "component counts are as documented");
  vc_assert(F::UnpackedAttributeSize(t) == 4 * l.n, "unpacked attributes are one float per component");
  vc_assert(F::PackedAttributeSize(t) == l.bytes, "packed sizes are as documented");
  vc_assert(F::IsPackedAsFloat(t) == (l.is_float == 1), "types packed into floats are the documented ones");
  vc_assert(F::IsUnpackedType(t) == (l.bits[0] == 0), "unpacked types are the documented ones");
  auto bits = F::PackedBitsPerComponent(t);
  vc_assert(bits.has_value() == (l.bits[0] != 0), "packed types have bits per component");
  if (bits.has_value()) {
    bool ok = bits->Size() == l.n;
    int sum = 0;
    for (int i = 0; i < l.n; ++i) ok = ok && (*bits)[i] == l.bits[i], sum += (*bits)[i];
    vc_assert(ok, "bits per component are as documented");
    // a float keeps 24 bits, a byte 8
    vc_assert(sum <= (l.is_float ? 24 * (F::PackedAttributeSize(t) / 4) : 8 * F::PackedAttributeSize(t)), "the components fit the packed size");
  }
  vc_assert(F::UnpackedIndexSize(kI[0]) == 2 && F::UnpackedIndexSize(kI[1]) == 4, "index sizes are as documented");
  vc_assert(F::MaxAttributes() == 16, "at most 16 attributes");
}
// What an accepted format says about its attributes.
static void layout(const F& f, const Pair* p, int n, int index_format) {
  auto a = f.Attributes();
  vc_assert(a.size() == static_cast<size_t>(n), "the format has the given number of attributes");
  bool same = true, widths = true, offsets = true;
  unsigned packed = 0, unpacked = 0;
  for (int i = 0; i < n; ++i) {
    same = same & (a[i].type == p[i].first) & (a[i].id == p[i].second);
    widths = widths & (a[i].unpacked_width == F::UnpackedAttributeSize(p[i].first)) & (a[i].packed_width == F::PackedAttributeSize(p[i].first));
    offsets = offsets & (a[i].unpacked_offset == unpacked) & (a[i].packed_offset == packed);
    unpacked += F::UnpackedAttributeSize(p[i].first);
    packed += F::PackedAttributeSize(p[i].first);
  }
  vc_assert(same, "attributes keep type, identifier and order");
  vc_assert(widths, "attributes are as wide as their type");
  vc_assert(offsets, "attributes follow each other without overlap");
  vc_assert((f.UnpackedVertexStride() == unpacked) & (f.PackedVertexStride() == packed), "a vertex is exactly as wide as its attributes");
  vc_assert(f.GetIndexFormat() == kI[index_format] && f.UnpackedIndexStride() == (index_format ? 4 : 2), "the index format is kept");
}
static bool position(const Pair& p) { return p.second == Id::kPosition; }
static bool two(Ty t) { int k = static_cast<int>(t); return (k >= 2) & (k <= 5); }
// Arbitrary bytes as types and identifiers.
static void accepted(int n) {
  Pair p[2];
  bool legal = n > 0, has = false;
  for (int i = 0; i < n; ++i) {
    uint8_t t = vc_u8("type"), id = vc_u8("id");
    p[i] = {static_cast<Ty>(t), static_cast<Id>(id)};
    legal = legal & (t < 14) & (id < 19);
    bool dup = false;
    for (int k = 0; k < i; ++k) dup = dup | (p[k].second == p[i].second);
    legal = legal & !dup & vc_implies(position(p[i]), two(p[i].first));
    has = has | position(p[i]);
  }
  legal = legal & has;
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[1]);
  bool ok = f.ok();
  vc_assert(ok == legal, "a format is accepted exactly for known types, distinct known identifiers and a two-component position");
  if (ok) {
    for (int i = 0; i < n; ++i) vc_assert(vc_implies(position(p[i]), f->PositionAttributeIndex() == i), "the position attribute is found");
  }
}
VC_PROOF(fp, accepted_0) { accepted(0); }
VC_PROOF(fp, accepted_1) { accepted(1); }
VC_PROOF(fp, accepted_2) { accepted(2); }
// Every length, with the position at the front, in the middle or at the end.
VC_PROOF(fp, lengths) {
  int n = vc_choose("n", 1, 17), where = vc_choose("where", 0, 2), k = vc_choose("index_format", 0, 1);
  int pos = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
  Pair p[17];
  for (int i = 0, id = 1; i < n; ++i) p[i] = {i == pos ? Ty::kFloat2PackedIn3UnsignedBytes_XY12 : static_cast<Ty>((n + i) % 14), i == pos ? Id::kPosition : static_cast<Id>(id++)};
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[k]);
  vc_assert(f.ok() == (n <= 16), "at most 16 attributes are accepted");
  if (f.ok()) {
    layout(*f, p, n, k);
    vc_assert(f->PositionAttributeIndex() == pos, "the position attribute is found");
  }
}
// The longest list, with the position anywhere and of any type; and any type and identifier anywhere in it.
static Id nth(int i) { return static_cast<Id>(i + 1); }
static_assert(static_cast<int>(Id::kPosition) == 0);
VC_PROOF(fp, position_type) {
  int n = vc_choose("n", 14, 16), at = vc_choose("at", 0, 15);
  if (at >= n) return;
  uint8_t t = vc_u8("type");
  Pair p[16];
  for (int i = 0; i < n; ++i) p[i] = {i == at ? static_cast<Ty>(t) : static_cast<Ty>((i * 5) % 14), i == at ? Id::kPosition : nth(i)};
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[0]);
  bool ok = f.ok();
  vc_assert(ok == ((t < 14) & two(static_cast<Ty>(t))), "a position is accepted exactly with two components");
  if (ok) vc_assert(f->PositionAttributeIndex() == at, "the position attribute is found");
}
VC_PROOF(fp, any_attribute) {
  int n = 16, pos = 15 * vc_choose("last", 0, 1), at = vc_choose("at", 0, 15);
  if (at == pos) return;
  uint8_t t = vc_u8("type"), id = vc_u8("id");
  Pair p[16];
  bool legal = (t < 14) & (id < 19) & (id != 0);
  for (int i = 0; i < n; ++i) {
    p[i] = {i == pos ? Ty::kFloat2Unpacked : static_cast<Ty>((i * 3) % 14), i == pos ? Id::kPosition : nth(i)};
    if (i != at && i != pos) legal = legal & (id != i + 1);
  }
  p[at] = {static_cast<Ty>(t), static_cast<Id>(id)};
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[0]);
  vc_assert(f.ok() == legal, "a format is accepted exactly for known types and distinct known identifiers");
}
// Any pair of types after the position.
VC_PROOF(fp, layouts) {
  int a = vc_choose("a", 0, 13), b = vc_choose("b", 0, 13), c = 2 + (a + b) % 4;
  Pair p[3] = {{static_cast<Ty>(a), Id::kCustom3}, {static_cast<Ty>(c), Id::kPosition}, {static_cast<Ty>(b), Id::kTexture}};
  auto f = F::Create(absl::Span<const Pair>(p, 3), kI[a % 2]);
  vc_assert(f.ok(), "every type may be used for any attribute but the position");
  layout(*f, p, 3, a % 2);
}
VC_PROOF(fp, default_format) {
  F f;
  Pair p[1] = {{Ty::kFloat2Unpacked, Id::kPosition}};
  layout(f, p, 1, 1);
  vc_assert(f.PositionAttributeIndex() == 0, "the default format has only an unpacked position");
}
static void equality(int n, int m, int i, int j, int t, int u, int d) {
  Pair p[2] = {{Ty::kFloat2Unpacked, Id::kPosition}, {static_cast<Ty>(t), Id::kColorShiftHsl}}, q[2] = {{Ty::kFloat2Unpacked, Id::kPosition}, {static_cast<Ty>(u), static_cast<Id>(d)}};
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[i]), g = F::Create(absl::Span<const Pair>(q, m), kI[j]);
  vc_assert(f.ok() && g.ok(), "the formats are accepted");
  bool ids = n == m && (n == 1 || d == 1), types = n == 1 || t == u;
  vc_assert((*f == *g) == (ids && types && i == j) && (*f != *g) == !(ids && types && i == j), "formats are equal exactly for equal attributes and index formats");
  vc_assert(F::IsPackedEquivalent(*f, *g) == (ids && types), "formats are packed equivalent exactly for equal attributes");
  vc_assert(F::IsUnpackedEquivalent(*f, *g) == (ids && (n == 1 || kLayout[t].n == kLayout[u].n)), "formats are unpacked equivalent exactly for equal identifiers and component counts");
}
VC_PROOF(fp, equal_types) { equality(2, 2, 1, 1, vc_choose("t", 0, 13), vc_choose("u", 0, 13), 1); }
VC_PROOF(fp, equal_shapes) {
  int n = vc_choose("n", 1, 2), m = vc_choose("m", 1, 2), i = vc_choose("i", 0, 1), j = vc_choose("j", 0, 1), d = vc_choose("id", 1, 2);
  equality(n, m, i, j, 6, 6, d);
}
VC_PROOF(fp, position_order) {
  Pair p[2] = {{Ty::kFloat2Unpacked, Id::kPosition}, {Ty::kFloat2Unpacked, Id::kTexture}}, q[2] = {p[1], p[0]};
  auto f = F::Create(absl::Span<const Pair>(p, 2), kI[0]), g = F::Create(absl::Span<const Pair>(q, 2), kI[0]);
  vc_assert(!(*f == *g) && !F::IsPackedEquivalent(*f, *g) && !F::IsUnpackedEquivalent(*f, *g), "the order of attributes matters");
}
// Removing attributes keeps the others, in order.
static void without(int n, int pos, int kinds, int m, int a, int b) {
  const Id ids[4] = {Id::kTexture, Id::kPosition, Id::kCustom0, Id::kSideLabel};
  Pair p[4];
  for (int i = 0, k = 0; i < n; ++i) {
    if (i == pos) p[i] = {Ty::kFloat2PackedIn1Float, Id::kPosition};
    else {
      if (ids[k] == Id::kPosition) ++k;
      p[i] = {static_cast<Ty>((kinds + i) % 14), ids[k++]};
    }
  }
  auto f = F::Create(absl::Span<const Pair>(p, n), kI[0]);
  vc_assert(f.ok(), "the format is accepted");
  Id rm[2] = {ids[a], ids[b]};
  auto g = f->WithoutAttributes(absl::Span<const Id>(rm, m));
  auto removed = [&](Id id) { return (m > 0 && rm[0] == id) || (m > 1 && rm[1] == id); };
  bool legal = !removed(Id::kPosition);
  for (int k = 0; k < m; ++k) {
    bool found = false;
    for (int i = 0; i < n; ++i) found = found || p[i].second == rm[k];
    legal = legal && found;
  }
  vc_assert(g.ok() == legal, "attributes are removed exactly when they are there and not the position");
  if (g.ok()) {
    Pair q[4];
    int left = 0;
    for (int i = 0; i < n; ++i) if (!removed(p[i].second)) q[left++] = p[i];
    layout(*g, q, left, 0);
  }
}

VC_PROOF(fp, without_types) { without(4, 1, vc_choose("types", 0, 13), 1, vc_choose("a", 0, 3), 0); }
VC_PROOF(fp, without_none) { without(3, 2, 5, 0, 0, 0); }
VC_PROOF(fp, without_one) {
  int n = vc_choose("n", 1, 4), pos = vc_choose("pos", 0, 3), a = vc_choose("a", 0, 3);
  if (pos < n) without(n, pos, 7, 1, a, 0);
}
VC_PROOF(fp, without_two) {
  int pos = vc_choose("pos", 0, 3), a = vc_choose("a", 0, 3), b = vc_choose("b", 0, 3);
  without(4, pos, 7, 2, a, b);
}
