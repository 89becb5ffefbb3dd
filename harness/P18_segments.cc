// Distance of segments, over the contracts of intersection and point/segment distance.
// VC-SOURCES: ink/geometry/distance.cc ink/geometry/segment.cc ink/geometry/triangle.cc ink/geometry/internal/algorithms.cc ink/geometry/internal/intersects_internal.cc ink/geometry/vec.cc ink/geometry/angle.cc ink/geometry/rect.cc ink/geometry/quad.cc ink/geometry/affine_transform.cc
// VC-STUB: ^ink::Distance\(ink::Point, ink::Segment const&\) => vc_point_distance
// VC-STUB: ^ink::geometry_internal::IntersectsInternal\(ink::Segment const&, ink::Segment const&\) => vc_meet
#include "geo.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/internal/intersects_internal.h"
static Segment g_s[2];
static bool g_meet, g_wrong;
static float g_d[2][2];  // distance of an end of one segment from the other
static bool same(Point p, Point q) { return vc_same(p.x, q.x) & vc_same(p.y, q.y); }
static bool is(const Segment& s, const Segment& t) { return (same(s.start, t.start) & same(s.end, t.end)) | (same(s.start, t.end) & same(s.end, t.start)); }
extern "C" float vc_point_distance(Point p, const Segment& s) {
  float r = 0;
  bool known = false;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 2; ++i) {
    bool m = is(s, g_s[1 - k]) & same(p, i ? g_s[k].end : g_s[k].start);
    if (m) r = g_d[k][i];
    known |= m;
  }
  g_wrong |= !known;
  return r;
}
extern "C" bool vc_meet(const Segment& a, const Segment& b) { g_wrong |= !((is(a, g_s[0]) & is(b, g_s[1])) | (is(a, g_s[1]) & is(b, g_s[0]))); return g_meet; }
static float length() { float f = vc_float("d"); vc_assume(f >= 0); return f; }
VC_PROOF(fp, segments) {
  Point a = finpt(), b = finpt(), c = finpt(), d = finpt();
  g_s[0] = {a, b}; g_s[1] = {c, d};
  bool da = vc_split(same(a, b)), db = vc_split(same(c, d));
  // different ends, and neither segment is the other
  vc_assume(!same(a, c) & !same(a, d) & !same(b, c) & !same(b, d));
  g_meet = vc_bool("meet"); g_wrong = false;
  for (auto& row : g_d) for (float& x : row) x = length();
  if (da) g_d[0][1] = g_d[0][0];
  if (db) g_d[1][1] = g_d[1][0];
  float r = Distance(g_s[0], g_s[1]);
#ifdef VC_SYMBOLIC
  float all = fmn(fmn(g_d[0][0], g_d[0][1]), fmn(g_d[1][0], g_d[1][1]));
  float want = da ? g_d[0][0] : db ? g_d[1][0] : g_meet ? 0 : all;
  vc_assert(!g_wrong, "only the two segments and their ends are measured");
  vc_assert(vc_implies(da & db, (r == g_d[0][0]) | (r == g_d[1][0])), "the distance of point-like segments is that of their points");
  vc_assert(vc_implies(!da | !db, r == want), "the distance of segments is 0 when they meet, and otherwise the least distance of an end from the other segment");
#else
  vc_assert(!(r < 0), "distances are not negative");
#endif
}

