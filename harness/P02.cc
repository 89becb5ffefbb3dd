// Copy-on-write handles: the abstract state of a handle is "empty" or "holds value v"; every operation changes exactly
// the abstract state it documents, from every sharing pattern of four handles, so by induction after any history.
// VC-BOUND: copy-on-write operations are proved from every sharing pattern of four handles (use counts up to 4, all stored values)
// VC-SOURCES:
// VC-OPT: max_iter=4000
#include "vc.h"
#include <utility>
#include "ink/types/internal/copy_on_write.h"
using ink_internal::CopyOnWrite;
static int g_copies = 0, g_live = 0;
struct Val {
  int32_t x;
  explicit Val(int32_t x) : x(x) { ++g_live; }
  Val(const Val& o) : x(o.x) { ++g_live; ++g_copies; }
  Val(Val&& o) : x(o.x) { ++g_live; }
  Val& operator=(const Val& o) { x = o.x; ++g_copies; return *this; }
  ~Val() { --g_live; }
};
using H = CopyOnWrite<Val>;
struct Abs { bool has; int32_t v; };
struct World {
  H h[4]; Abs s[4]; int g[4]; int groups = 0;
  // g[i]: 0 = empty, otherwise the sharing group
  explicit World(const int (&p)[4]) {
    for (int i = 0; i < 4; ++i) {
      g[i] = p[i];
      s[i] = {p[i] != 0, 0};
      if (!p[i]) continue;
      int j = 0; while (p[j] != p[i]) ++j;
      if (j < i) { h[i] = h[j]; s[i] = s[j]; }
      else { int32_t v = vc_i32("v"); h[i].Emplace(v); s[i].v = v; ++groups; }
    }
  }
  int members(int grp) const { int n = 0; for (int i = 0; i < 4; ++i) n += g[i] == grp; return n; }
  void agrees(const char* what) const {
    bool ok = true;
    for (int i = 0; i < 4; ++i) {
      ok &= h[i].HasValue() == s[i].has;
      if (s[i].has && h[i].HasValue()) ok &= (h[i].Value().x == s[i].v) & ((*h[i]).x == s[i].v) & (h[i]->x == s[i].v);
    }
    vc_assert(ok, what);
    bool sh = true;
    for (int i = 0; i < 4; ++i) sh &= h[i].IsShared() == (g[i] != 0 && members(g[i]) > 1);
    vc_assert(sh, "a handle is shared exactly when another handle refers to its object");
  }
};
template <typename F>
static void all_patterns(F f) {
  for (int a = 0; a <= 1; ++a) for (int b = 0; b <= a + 1; ++b) {
    int m = a > b ? a : b;
    for (int c = 0; c <= m + 1; ++c) {
      int n = m > c ? m : c;
      for (int d = 0; d <= n + 1; ++d) {
        {
          int p[4] = {a, b, c, d};
          World w(p);
          f(w);
        }
        vc_assert(g_live == 0, "every stored object is destroyed once its last handle is gone");
      }
    }
  }
}
VC_PROOF(fp, observe) {
  all_patterns([](World& w) {
    int c = g_copies;
    w.agrees("handles built by copying hold the copied value");
    vc_assert((g_copies == c) & (g_copies == 0) & (g_live == w.groups), "reading and copying handles never copies the object");
    g_copies = 0;
  });
}
VC_PROOF(fp, copy_assign) {
  all_patterns([](World& w) {
    w.h[0] = w.h[1]; w.s[0] = w.s[1]; w.g[0] = w.g[1];
    w.agrees("copy assignment makes both handles hold the source value and changes no other");
    vc_assert(g_copies == 0, "copy assignment does not copy the object");
  });
}
VC_PROOF(fp, self_assign) {
  all_patterns([](World& w) {
    H& r = w.h[0]; w.h[0] = r;
    w.agrees("self assignment changes nothing");
  });
}
VC_PROOF(fp, move_assign) {
  all_patterns([](World& w) {
    w.h[0] = std::move(w.h[1]); w.s[0] = w.s[1]; w.g[0] = w.g[1]; w.s[1].has = false; w.g[1] = 0;
    w.agrees("move assignment transfers the value and changes no other handle");
    vc_assert(g_copies == 0, "move assignment does not copy the object");
  });
}
VC_PROOF(fp, swap) {
  all_patterns([](World& w) {
    std::swap(w.h[0], w.h[1]); std::swap(w.s[0], w.s[1]); std::swap(w.g[0], w.g[1]);
    w.agrees("swap exchanges the values");
    vc_assert(g_copies == 0, "swap does not copy the object");
  });
}
VC_PROOF(fp, construct) {
  all_patterns([](World& w) {
    H n(w.h[0]);
    vc_assert((n.HasValue() == w.s[0].has) && (!w.s[0].has || n.Value().x == w.s[0].v), "copy construction holds the source value");
    vc_assert(g_copies == 0, "copy construction does not copy the object");
    H m(std::move(n));
    vc_assert((m.HasValue() == w.s[0].has) && (!w.s[0].has || m.Value().x == w.s[0].v) && !n.HasValue(), "move construction transfers the value");
    if (m.HasValue()) {
      int32_t v = vc_i32("new");
      m.MutableValue().x = v;
      vc_assert(m.Value().x == v, "a copy can be written");
      vc_assert(g_copies == 1, "writing a shared value copies it once");
      g_copies = 0;
    }
    w.agrees("constructing from and writing through a copy changes no other handle");
  });
}
VC_PROOF(fp, emplace) {
  all_patterns([](World& w) {
    int32_t v = vc_i32("new");
    Val& r = w.h[0].Emplace(v);
    vc_assert((&r == &w.h[0].Value()) & (g_copies == 0), "Emplace returns the new object without copying");
    w.s[0] = {true, v}; w.g[0] = 99;
    w.agrees("Emplace replaces the value of this handle only");
  });
}
VC_PROOF(fp, reset) {
  all_patterns([](World& w) {
    w.h[0].Reset(); w.s[0].has = false; w.g[0] = 0;
    w.agrees("Reset empties this handle only");
  });
}
VC_PROOF(fp, write) {
  all_patterns([](World& w) {
    if (!w.s[0].has) return;
    bool shared = w.members(w.g[0]) > 1;
    int32_t old = w.s[0].v, v = vc_i32("new");
    Val& r = w.h[0].MutableValue();
    vc_assert(r.x == old, "the writable value starts as the current value");
    vc_assert(g_copies == (shared ? 1 : 0), "writing copies exactly when the object is shared");
    g_copies = 0;
    r.x = v;
    w.s[0].v = v; w.g[0] = 99;
    w.agrees("a write is visible through this handle and through no other");
    // a second write through the now unshared handle keeps the same object
    vc_assert((&w.h[0].MutableValue() == &r) & (g_copies == 0), "writing an unshared value does not copy");
    // copies taken afterwards see the written value, and keep it when the original is written again
    H later = w.h[0]; int32_t u = vc_i32("again");
    w.h[0].MutableValue().x = u;
    vc_assert((later.Value().x == v) & (w.h[0].Value().x == u), "a copy keeps the value it was copied from");
    g_copies = 0;
  });
}
VC_PROOF(fp, from_value) {
  {
    int32_t x = vc_i32("x"), y = vc_i32("y");
    Val v(x);
    H a(v), b{Val(y)}, e;
    v.x = x + 1u;
    vc_assert(a.HasValue() & b.HasValue() & !e.HasValue() & !e.IsShared(), "a handle made from a value has one; a default one is empty");
    vc_assert((a.Value().x == x) & (b.Value().x == y) & !a.IsShared() & !b.IsShared(), "the handle holds its own copy of the value");
  }
  vc_assert(g_live == 0, "every stored object is destroyed once");
}
