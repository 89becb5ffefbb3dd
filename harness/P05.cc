// iterator_range / make_range expose exactly the wrapped iterators.
// VC-BOUND: element-by-element iteration is proved for ranges of up to 6 elements; begin, end, size and emptiness for all
#include <list>
#include <map>
#include <string>
#include <type_traits>
#include "vc.h"
#include "ink/types/iterator_range.h"
using ink::iterator_range; using ink::make_range;
// a random-access iterator over all 64-bit positions, with an identity independent of the position
struct Pos {
  using iterator_category = std::random_access_iterator_tag;
  using value_type = int64_t; using difference_type = std::ptrdiff_t; using pointer = const int64_t*; using reference = int64_t;
  int64_t p = 0; uint32_t tag = 0;
  int64_t operator*() const { return p; }
  Pos& operator++() { ++p; return *this; }
  friend bool operator==(const Pos& a, const Pos& b) { return a.p == b.p; }
  friend bool operator!=(const Pos& a, const Pos& b) { return a.p != b.p; }
  friend std::ptrdiff_t operator-(const Pos& a, const Pos& b) { return a.p - b.p; }
};
// a forward iterator whose moved-from state is visible
struct Fwd {
  using iterator_category = std::forward_iterator_tag;
  using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int;
  int64_t p = -7; uint32_t tag = 9;
  Fwd() = default;
  Fwd(int64_t a, uint32_t b) : p(a), tag(b) {}
  Fwd(const Fwd&) = default; Fwd& operator=(const Fwd&) = default;
  Fwd(Fwd&& o) : p(o.p), tag(o.tag) { o.p = -1; o.tag = 0; }
  Fwd& operator=(Fwd&& o) { p = o.p; tag = o.tag; o.p = -1; o.tag = 0; return *this; }
  int operator*() const { return 0; }
  Fwd& operator++() { ++p; return *this; }
  friend bool operator==(const Fwd& a, const Fwd& b) { return a.p == b.p; }
  friend bool operator!=(const Fwd& a, const Fwd& b) { return a.p != b.p; }
};
template <typename T, typename = void> struct has_size : std::false_type {};
template <typename T> struct has_size<T, std::void_t<decltype(std::declval<const T&>().size())>> : std::true_type {};
static Pos pos(const char* n, const char* t) { Pos p; p.p = vc_i64(n); vc_assume((p.p >= 0) & (p.p <= (int64_t{1} << 61))); p.tag = vc_u32(t); return p; }

static void check(const iterator_range<Pos>& r, Pos a, Pos b) {
  vc_assert((r.begin().p == a.p) & (r.begin().tag == a.tag), "begin is the first iterator given");
  vc_assert((r.end().p == b.p) & (r.end().tag == b.tag), "end is the second iterator given");
  vc_assert(r.empty() == (a.p == b.p), "empty exactly when the iterators are equal");
  vc_assert(r.size() == static_cast<size_t>(b.p - a.p), "size is the distance");
}
VC_PROOF(fp, construct) { Pos a = pos("a", "ta"), b = pos("b", "tb"); vc_assume(a.p <= b.p); check(iterator_range<Pos>(a, b), a, b); }
VC_PROOF(fp, make_two) { Pos a = pos("a", "ta"), b = pos("b", "tb"); vc_assume(a.p <= b.p); check(make_range(a, b), a, b); }
VC_PROOF(fp, make_pair) { Pos a = pos("a", "ta"), b = pos("b", "tb"); vc_assume(a.p <= b.p); check(make_range(std::pair<Pos, Pos>(a, b)), a, b); }
VC_PROOF(fp, copy_and_assign) {
  Pos a = pos("a", "ta"), b = pos("b", "tb"); vc_assume(a.p <= b.p);
  iterator_range<Pos> r(a, b), q; q = r; iterator_range<Pos> c = q;
  check(r, a, b); check(q, a, b); check(c, a, b);
}
VC_PROOF(fp, defaults) {
  iterator_range<Pos> r;
  vc_assert(r.empty() & (r.size() == 0) & (r.begin() == r.end()), "a default range is empty");
  iterator_range<const int*> p;
  vc_assert(p.empty() & (p.size() == 0) & (p.begin() == nullptr), "a default pointer range is empty");
  iterator_range<Fwd> f;
  vc_assert(f.empty(), "a default forward range is empty");
}
VC_PROOF(fp, forward) {
  Fwd a(vc_i64("a"), vc_u32("ta")), b(vc_i64("b"), vc_u32("tb"));
  int64_t ap = a.p, bp = b.p; uint32_t at = a.tag, bt = b.tag;
  auto chk = [&](const iterator_range<Fwd>& r) {
    Fwd x = r.begin(), y = r.end(), x2 = r.begin(), y2 = r.end();
    vc_assert((x.p == ap) & (x.tag == at) & (y.p == bp) & (y.tag == bt), "begin and end as given");
    vc_assert((x2.p == ap) & (x2.tag == at) & (y2.p == bp) & (y2.tag == bt), "reading does not consume the iterators");
    vc_assert(r.empty() == (ap == bp), "empty exactly when equal");
  };
  chk(iterator_range<Fwd>(a, b)); chk(make_range(a, b)); chk(make_range(std::pair<Fwd, Fwd>(a, b)));
  vc_assert((a.p == ap) & (b.p == bp), "the arguments are unchanged");
}
VC_PROOF(fp, pointers) {
  static int v[4096];
  uint32_t i = vc_u32("i"), j = vc_u32("j");
  vc_assume((i <= j) & (j <= 4096));
  auto r = make_range(v + i, v + j);
  vc_assert((r.begin() == v + i) & (r.end() == v + j), "pointer range");
  vc_assert((r.size() == j - i) & (r.empty() == (i == j)), "pointer range size");
  const int* a = v + i; const int* b = v + j;
  iterator_range<const int*> q(a, b);
  vc_assert((q.begin() == a) & (q.end() == b) & (q.size() == j - i) & (q.empty() == (i == j)), "const pointer range");
}
VC_PROOF(fp, iterate) {
  // range-for visits exactly [begin, end) in order (lengths up to 6)
  int v[6] = {10, 11, 12, 13, 14, 15};
  int i = vc_choose("i", 0, 6), j = vc_choose("j", 0, 6);
  if (i > j) return;
  int n = 0;
  for (int x : make_range(v + i, v + j)) { vc_assert(x == 10 + i + n, "elements in order"); ++n; }
  vc_assert(n == j - i, "every element once");
}
VC_PROOF(fp, types) {
  using LI = std::list<int>::iterator; using MI = std::multimap<int, int>::iterator;
  vc_assert(!has_size<iterator_range<LI>>::value & !has_size<iterator_range<MI>>::value & !has_size<iterator_range<Fwd>>::value, "size only for random-access iterators");
  vc_assert(has_size<iterator_range<Pos>>::value & has_size<iterator_range<int*>>::value, "size for random-access iterators");
  vc_assert(std::is_same_v<iterator_range<LI>::iterator, LI> & std::is_same_v<iterator_range<LI>::const_iterator, LI> & std::is_same_v<iterator_range<LI>::value_type, int>, "member types");
  vc_assert(std::is_same_v<decltype(make_range(std::declval<std::pair<LI, LI>>())), iterator_range<LI>> & std::is_same_v<decltype(make_range(std::declval<int*>(), std::declval<int*>())), iterator_range<int*>>, "make_range deduces the iterator");
  vc_assert(std::is_same_v<decltype(std::declval<const iterator_range<Pos>&>().size()), size_t>, "size is a size_t");
}
