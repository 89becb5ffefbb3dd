// Small fixed-capacity arrays: every size up to the capacity, all element values.
// VC-BOUND: small arrays are proved for capacities 1, 5 and 8, every size up to the capacity and all element values
// VC-SOURCES:
// VC-OPT: max_iter=4000
#include "vc.h"
#include "ink/types/small_array.h"
using ink::SmallArray;
template <typename T> T val() { return static_cast<T>(vc_u32("e")); }
template <typename T, uint8_t N> struct Ghost { T v[N]; int n = 0; };
template <typename T, uint8_t N>
static void agrees(const SmallArray<T, N>& a, const Ghost<T, N>& g, const char* what) {
  bool ok = (a.Size() == g.n) & (a.MaxSize() == N) & (a.Values().size() == static_cast<size_t>(g.n));
  vc_assert(ok, what);
  for (int i = 0; i < g.n; ++i) ok &= (a[i] == g.v[i]) & (a.Values()[i] == g.v[i]);
  vc_assert(ok, what);
}
template <typename T, uint8_t N>
static SmallArray<T, N> make(int n, Ghost<T, N>& g) {
  g.n = n;
  for (int i = 0; i < n; ++i) g.v[i] = val<T>();
  return SmallArray<T, N>(absl::Span<const T>(g.v, n));
}
template <typename T, uint8_t N>
static void construct() {
  Ghost<T, N> e; agrees(SmallArray<T, N>(), e, "a default array is empty");
  for (int n = 0; n <= N; ++n) {
    Ghost<T, N> g; SmallArray<T, N> a = make<T, N>(n, g);
    agrees(a, g, "an array built from a span keeps its values");
    SmallArray<T, N> c = a, m = std::move(c), o; o = m;
    agrees(m, g, "copying and moving keep the values"); agrees(o, g, "assignment keeps the values");
    Ghost<T, N> k; k.n = n; T x = val<T>(); for (int i = 0; i < n; ++i) k.v[i] = x;
    agrees(SmallArray<T, N>(n, x), k, "an array built from a count and a value holds copies of the value");
    for (int i = 0; i < n; ++i) k.v[i] = T();
    agrees(SmallArray<T, N>(n), k, "an array built from a count is value-initialised");
    for (int i = 0; i < n; ++i) {
      T y = val<T>(); Ghost<T, N> h = g; h.v[i] = y;
      SmallArray<T, N> w = a; w[i] = y; agrees(w, h, "writing one element changes that element only");
      SmallArray<T, N> u = a; u.Values()[i] = y; agrees(u, h, "writing through the span changes that element only");
    }
  }
}
template <typename T, uint8_t N>
static void resize() {
  for (int n = 0; n <= N; ++n) for (int m = 0; m <= N; ++m) {
    Ghost<T, N> g; SmallArray<T, N> a = make<T, N>(n, g), b = a;
    T x = val<T>(); Ghost<T, N> h = g, k = g; h.n = k.n = m;
    for (int i = n; i < m; ++i) { h.v[i] = x; k.v[i] = T(); }
    a.Resize(m, x); agrees(a, h, "resizing keeps the common prefix and fills with the value");
    b.Resize(m); agrees(b, k, "resizing keeps the common prefix and value-initialises");
    // and back again: elements dropped by shrinking do not come back
    b.Resize(n);
    for (int i = m; i < n; ++i) k.v[i] = T();
    k.n = n; agrees(b, k, "elements dropped by a resize do not come back");
  }
}
template <typename T, uint8_t N>
static void equality() {
  for (int n = 0; n <= N; ++n) for (int m = 0; m <= N; ++m) {
    Ghost<T, N> g, h; SmallArray<T, N> a = make<T, N>(n, g), b = make<T, N>(m, h);
    bool same = n == m;
    for (int i = 0; i < n && i < m; ++i) same &= g.v[i] == h.v[i];
    vc_assert((a == b) == same, "equal exactly when sizes and live elements are equal");
    // leftovers of dropped elements do not take part
    SmallArray<T, N> c = a; c.Resize(N, val<T>()); c.Resize(n);
    vc_assert(c == a, "dropped elements do not affect equality");
  }
}
VC_PROOF(fp, construct_u32_5) { construct<uint32_t, 5>(); }
VC_PROOF(fp, construct_u8_1) { construct<uint8_t, 1>(); }
VC_PROOF(fp, construct_u16_8) { construct<uint16_t, 8>(); }
VC_PROOF(fp, resize_u32_5) { resize<uint32_t, 5>(); }
VC_PROOF(fp, resize_u8_1) { resize<uint8_t, 1>(); }
VC_PROOF(fp, resize_u16_8) { resize<uint16_t, 8>(); }
VC_PROOF(fp, equality_u32_5) { equality<uint32_t, 5>(); }
VC_PROOF(fp, equality_u8_1) { equality<uint8_t, 1>(); }
VC_PROOF(fp, init_list) {
  uint32_t x = vc_u32("x"), y = vc_u32("y"), z = vc_u32("z");
  SmallArray<uint32_t, 4> a({x, y, z});
  Ghost<uint32_t, 4> g{{x, y, z}, 3}; agrees(a, g, "an array built from a list keeps its values");
}
