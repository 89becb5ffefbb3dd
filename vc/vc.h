// Contract language of the harnesses in /verif/harness.
//   vc_assume  = requires      vc_assert = ensures (a named proof obligation)
// The VC generator interprets these functions symbolically; vc_native.cc gives them a
// concrete meaning so that a counterexample can be replayed against the real code.
#ifndef VC_H_
#define VC_H_
#include <cstdint>
#include <cmath>
#include <limits>
extern "C" {
float vc_float(const char* name);
double vc_double(const char* name);
bool vc_bool(const char* name);
uint8_t vc_u8(const char* name);
uint16_t vc_u16(const char* name);
int16_t vc_i16(const char* name);
uint32_t vc_u32(const char* name);
int32_t vc_i32(const char* name);
int32_t vc_count(const char* name);  // int32 for arithmetic (a mathematical integer in real mode)
uint64_t vc_u64(const char* name);
int64_t vc_i64(const char* name);
int vc_choose(const char* name, int lo, int hi);  // explored value by value
bool vc_split(bool);                              // case split
void vc_assume(bool);
void vc_assert(bool, const char* name);
void vc_cover(const char* name);
int vc_mode();  // 0 fp, 1 real, 2 fpuf, 3 native
bool vc_near(float a, float b, float scale);           // equal; native: up to rounding relative to scale
bool vc_within(double a, double b, double tol);        // |a-b| <= tol
float vc_ghost(float x);                               // x under a ghost name (keeps proof goals small)
bool vc_identical(float a, float b);                   // the same term (true only for equal values)
bool vc_same(float a, float b);                        // equal or both NaN
}
// Non-short-circuit connectives keep specifications branch free.
inline bool vc_and(bool a, bool b) { return a & b; }
inline bool vc_or(bool a, bool b) { return a | b; }
inline bool vc_implies(bool a, bool b) { return !a | b; }
inline bool vc_isnan(float x) { return x != x; }
inline bool vc_finite(float x) { return __builtin_isfinite(x); }
inline float vc_finite_float(const char* n) {
  float f = vc_float(n);
  vc_assume(vc_finite(f));
  return f;
}
#define VC_INF (std::numeric_limits<float>::infinity())
#define VC_NAN (std::numeric_limits<float>::quiet_NaN())
// A proof harness: run in mode(s) M, e.g. VC_PROOF(fp, name) { ... }
#define VC_PROOF(M, N) extern "C" __attribute__((used)) void vcproof_##M##__##N()
#endif
