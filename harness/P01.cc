// Duration32: never NaN; the documented table for infinite/NaN operands; IEEE result otherwise.
// VC-SOURCES: ink/types/duration.cc
#include "vc.h"
#include "ink/types/duration.h"
using ink::Duration32;
static bool special(float x) { return !vc_finite(x); }
static Duration32 any_duration(const char* n) {
  Duration32 d = Duration32::Seconds(vc_float(n));
  return d;
}
static float finf = std::numeric_limits<float>::infinity();

VC_PROOF(fp, factories) {
  float s = vc_float("s");
  Duration32 a = Duration32::Seconds(s), b = Duration32::Millis(s);
  vc_assert(a.ToSeconds() == (vc_isnan(s) ? VC_INF : s), "Seconds stores its argument, NaN gives +inf");
  vc_assert(!vc_isnan(a.ToSeconds()), "Seconds never NaN");
  vc_assert(!vc_isnan(b.ToSeconds()), "Millis never NaN");
  vc_assert(vc_implies(vc_isnan(s), b.ToSeconds() == VC_INF), "Millis(NaN) is +inf");
  vc_assert(vc_implies(!vc_isnan(s), b.ToSeconds() == 0.001f * s), "Millis scales to seconds");
  vc_assert(!vc_isnan(a.ToMillis()), "ToMillis never NaN");
  vc_assert(a.ToMillis() == 1000 * a.ToSeconds(), "ToMillis scales");
  vc_assert(a.IsFinite() == vc_finite(a.ToSeconds()), "IsFinite");
  vc_assert(Duration32::Zero().ToSeconds() == 0, "Zero");
  vc_assert(Duration32().ToSeconds() == 0, "default is zero");
  vc_assert(Duration32::Infinite().ToSeconds() == VC_INF, "Infinite");
}
VC_PROOF(fp, add_sub_neg) {
  Duration32 a = any_duration("a"), b = any_duration("b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  Duration32 s = a + b, d = a - b, n = -a;
  Duration32 s2 = a, d2 = a;
  s2 += b; d2 -= b;
  vc_assert(!vc_isnan(s.ToSeconds()), "a+b never NaN");
  vc_assert(!vc_isnan(d.ToSeconds()), "a-b never NaN");
  vc_assert(n.ToSeconds() == -x, "negation");
  vc_assert(s.ToSeconds() == (special(x) ? x : x + y), "a+b: infinite a wins, IEEE otherwise");
  vc_assert(d.ToSeconds() == (special(x) ? x : x - y), "a-b: infinite a wins, IEEE otherwise");
  vc_assert(s2 == s, "+= agrees with +");
  vc_assert(d2 == d, "-= agrees with -");
  vc_assert(b.ToSeconds() == y, "operand unchanged");
}
VC_PROOF(fp, mul) {
  Duration32 a = any_duration("a");
  float k = vc_float("k"), x = a.ToSeconds();
  Duration32 p = a * k, q = k * a, r = a;
  r *= k;
  vc_assert(!vc_isnan(p.ToSeconds()), "d*k never NaN");
  vc_assert(vc_implies(vc_isnan(k), p.ToSeconds() == (x >= 0 ? VC_INF : -VC_INF)), "d*NaN is infinite with the sign of d");
  vc_assert(vc_implies(special(x) & !vc_isnan(k), p.ToSeconds() == ((x >= 0) == (k >= 0) ? VC_INF : -VC_INF)), "inf*k is infinite");
  vc_assert(vc_implies(!special(x) & !special(k), p.ToSeconds() == x * k), "finite product is the IEEE product");
  vc_assert(vc_implies(!special(x) & special(k) & !vc_isnan(k) & (x != 0), p.ToSeconds() == x * k), "finite nonzero times infinity");
  vc_assert(q == p, "k*d agrees with d*k");
  vc_assert(r == p, "*= agrees with *");
}
VC_PROOF(fp, div_scalar) {
  Duration32 a = any_duration("a");
  float k = vc_float("k"), x = a.ToSeconds();
  Duration32 p = a / k, r = a;
  r /= k;
  vc_assert(!vc_isnan(p.ToSeconds()), "d/k never NaN");
  vc_assert(vc_implies(vc_isnan(k), p.ToSeconds() == (x >= 0 ? VC_INF : -VC_INF)), "d/NaN is infinite with the sign of d");
  vc_assert(vc_implies(special(x) & !vc_isnan(k), p.ToSeconds() == ((x >= 0) == (k >= 0) ? VC_INF : -VC_INF)), "inf/k is infinite");
  vc_assert(vc_implies(!special(x) & !vc_isnan(k) & ((x != 0) | (k != 0)), p.ToSeconds() == x / k), "otherwise the IEEE quotient");
  vc_assert(r == p, "/= agrees with /");
}
VC_PROOF(fp, div_duration) {
  Duration32 a = any_duration("a"), b = any_duration("b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  float q = a / b;
  vc_assert(!vc_isnan(q), "a/b never NaN");
  vc_assert(vc_implies(y == 0, q == (x >= 0 ? VC_INF : -VC_INF)), "division by zero duration");
  vc_assert(vc_implies((y != 0) & special(x), q == ((x >= 0) == (y >= 0) ? VC_INF : -VC_INF)), "infinite numerator");
  vc_assert(vc_implies((y != 0) & !special(x), q == x / y), "otherwise the IEEE quotient");
}
VC_PROOF(fp, order) {
  Duration32 a = any_duration("a"), b = any_duration("b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  vc_assert((a == b) == (x == y), "==");
  vc_assert((a != b) == (x != y), "!=");
  vc_assert((a < b) == (x < y), "<");
  vc_assert((a > b) == (x > y), ">");
  vc_assert((a <= b) == (x <= y), "<=");
  vc_assert((a >= b) == (x >= y), ">=");
  vc_assert((a < b) + (a == b) + (a > b) == 1, "total order");
}
