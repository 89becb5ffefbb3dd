// Shared contract of the spatial index.
#ifndef VC_RTREE_H_
#define VC_RTREE_H_
#include "geo.h"
#include <vector>
#include "absl/types/span.h"
#include "ink/geometry/internal/static_rtree.h"
using namespace ink::geometry_internal;
constexpr int kMax = 40;
static float g_box[kMax][4];
static int g_seen[kMax];
static int g_stop, g_calls, g_after_stop, g_foreign;
static bool g_stopped;
static Rect box(int i) { return Rect::FromTwoPoints({g_box[i][0], g_box[i][1]}, {g_box[i][2], g_box[i][3]}); }
static bool overlap(int i, const Rect& q) { return (g_box[i][0] <= q.XMax()) & (q.XMin() <= g_box[i][2]) & (g_box[i][1] <= q.YMax()) & (q.YMin() <= g_box[i][3]); }
template <uint32_t B> static void query(int n, const Rect& q, bool generated) {
  std::vector<int> elements(n);
  for (int i = 0; i < n; ++i) elements[i] = i;
  int next = 0;
  StaticRTree<int, B> by_span = generated ? StaticRTree<int, B>() : StaticRTree<int, B>(absl::MakeConstSpan(elements), [](const int& i) { return box(i); });
  StaticRTree<int, B> by_generator = generated ? StaticRTree<int, B>(n, [&next]() { return next++; }, [](const int& i) { return box(i); }) : StaticRTree<int, B>();
  const StaticRTree<int, B>& tree = generated ? by_generator : by_span;
  for (int i = 0; i < n; ++i) g_seen[i] = 0;
  g_calls = g_after_stop = g_foreign = 0;
  g_stopped = false;
  tree.VisitIntersectedElements(q, [n](const int& i) {
    g_after_stop += g_stopped;
    g_foreign += (i < 0) | (i >= n);
    for (int k = 0; k < n; ++k) g_seen[k] += k == i;
    ++g_calls;
    g_stopped = g_stopped | (g_calls == g_stop);
    return g_calls != g_stop;
  });
  int expected = 0;
  bool once = true, only = true, all = true;
  for (int i = 0; i < n; ++i) {
    bool hit = overlap(i, q);
    expected += hit;
    once = once & (g_seen[i] <= 1);
    only = only & (hit | (g_seen[i] == 0));
    all = all & (!hit | (g_seen[i] == 1));
  }
  vc_assert(g_foreign == 0, "only elements are visited");
  vc_assert(once, "no element is visited twice");
  if (n <= 4) for (int i = 0; i < n; ++i) vc_assert(overlap(i, q) | (g_seen[i] == 0), "visited elements overlap the query");
  else vc_assert(only, "visited elements overlap the query");
  vc_assert(g_after_stop == 0, "nothing is visited after the visitor stops");
  if (g_stop == 0 && n <= 4) for (int i = 0; i < n; ++i) vc_assert(!overlap(i, q) | (g_seen[i] == 1), "every overlapping element is visited");
  else if (g_stop <= 0 || g_stop > n) vc_assert(all, "every overlapping element is visited");
  else vc_assert(g_calls == (expected < g_stop ? expected : g_stop), "visits end only when the visitor stops");
}
static void any_boxes(int n) {
  for (int i = 0; i < n; ++i) {
    Rect r = numrect();
    g_box[i][0] = r.XMin(); g_box[i][1] = r.YMin(); g_box[i][2] = r.XMax(); g_box[i][3] = r.YMax();
  }
}
#endif
