// Concrete meaning of the harness API: replay of a counterexample, and a
// boundary-biased search used when the solver gives no (confirmed) input.
#include "vc.h"
#include <setjmp.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <random>
static jmp_buf g_skip;
static std::map<std::string, uint64_t> g_vals;
static bool g_replay;
static std::map<std::string, int> g_counts;
struct Used { char name[64]; uint64_t bits; char kind; };
static Used g_used[20000];
static int g_nused;
static std::mt19937_64 g_rng(1);
static std::vector<float> g_recent;
static bool g_assumed;
static const char* g_current;

static void dump(const char* why) {
  printf("FAIL %s\n", why);
  for (int i = 0; i < g_nused; i++) {
    printf("INPUT %s %c %llu", g_used[i].name, g_used[i].kind, (unsigned long long)g_used[i].bits);
    if (g_used[i].kind == 'f') { float f; uint32_t b = g_used[i].bits; memcpy(&f, &b, 4); printf(" %.9g", f); }
    if (g_used[i].kind == 'd') { double f; memcpy(&f, &g_used[i].bits, 8); printf(" %.17g", f); }
    printf("\n");
  }
  fflush(stdout);
}
static void die(const char* why) { dump(why); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
static void on_death() { dump("sanitizer report (undefined behaviour or memory error)"); }
static void on_sig(int s) { if (s == SIGALRM) { die("no termination within the time limit"); } die("crash (signal)"); }

static uint64_t lookup(const char* n, bool& found) {
  int k = g_counts[n]++;
  std::string key = std::string(n) + "#" + std::to_string(k);
  auto it = g_vals.find(key);
  found = it != g_vals.end();
  return found ? it->second : 0;
}
static void note(const char* n, char k, uint64_t b) {
  if (g_nused < 20000) {
    snprintf(g_used[g_nused].name, 64, "%s#%d", n, g_counts[n] - 1);
    g_used[g_nused].bits = b; g_used[g_nused].kind = k; g_nused++;
  }
}
static uint64_t R(uint64_t n) { return g_rng() % n; }
static float gen_float() {
  static const float sp[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 2.f, -2.f, 0.25f, 0.75f, 3.f, 10.f, 100.f, 1e-3f, INFINITY, -INFINITY, NAN,
    3.40282347e+38f, -3.40282347e+38f, 1.17549435e-38f, 1.4e-45f, -1.4e-45f, 1e-30f, 1e30f, 3.14159274f, 6.28318548f, 1.57079637f, -3.14159274f, -1.57079637f,
    12.566371f, 255.f, 256.f, 127.f, 126.f, 65535.f, 1e19f, 4294967296.f, 2147483648.f, 0.1f, 0.9f, 0.99999994f, 1.00000012f, 7.f, 1023.f, 4095.f};
  switch (R(11)) {
    case 0: case 1: return sp[R(sizeof(sp) / 4)];
    case 2: return (float)((int)R(9) - 4);
    case 3: return (float)((int)R(200) - 100) / 4;
    case 4: case 5: return (float)R(1 << 24) / (1 << 24);
    case 6: return ((float)R(1 << 24) / (1 << 23) - 1) * 10;
    case 7: { uint32_t b = g_rng(); float f; memcpy(&f, &b, 4); return f; }
    case 8: if (!g_recent.empty()) return g_recent[R(g_recent.size())]; return 0;
    case 9: if (!g_recent.empty()) { float f = g_recent[R(g_recent.size())]; return R(3) == 0 ? -f : nextafterf(f, R(2) ? INFINITY : -INFINITY); } return 1;
    default: return ((float)R(1 << 24) / (1 << 23) - 1) * 1000;
  }
}
static uint64_t gen_int(int bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (R(6)) {
    case 0: return R(5) & m;
    case 1: return (0 - R(5)) & m;
    case 2: return (1ull << R(bits)) & m;
    case 3: return ((1ull << R(bits)) - 1) & m;
    case 4: return R(300) & m;
    default: return g_rng() & m;
  }
}
static uint64_t geti(const char* n, int bits) {
  bool f; uint64_t v = lookup(n, f);
  if (!f) v = g_replay ? 0 : gen_int(bits);
  note(n, 'i', v);
  return v;
}
extern "C" {
float vc_float(const char* n) {
  bool f; uint64_t v = lookup(n, f); float x;
  if (f) { uint32_t b = v; memcpy(&x, &b, 4); } else x = g_replay ? 0.f : gen_float();
  g_recent.push_back(x);
  uint32_t b; memcpy(&b, &x, 4); note(n, 'f', b);
  return x;
}
double vc_double(const char* n) {
  bool f; uint64_t v = lookup(n, f); double x;
  if (f) memcpy(&x, &v, 8); else x = g_replay ? 0. : (double)gen_float();
  uint64_t b; memcpy(&b, &x, 8); note(n, 'd', b);
  return x;
}
bool vc_bool(const char* n) { return geti(n, 1) & 1; }
uint8_t vc_u8(const char* n) { return geti(n, 8); }
uint16_t vc_u16(const char* n) { return geti(n, 16); }
int16_t vc_i16(const char* n) { return geti(n, 16); }
uint32_t vc_u32(const char* n) { return geti(n, 32); }
int32_t vc_i32(const char* n) { return geti(n, 32); }
int32_t vc_count(const char* n) { return geti(n, 32); }
uint64_t vc_u64(const char* n) { return geti(n, 64); }
int64_t vc_i64(const char* n) { return geti(n, 64); }
int vc_choose(const char* n, int lo, int hi) {
  bool f; uint64_t v = lookup(n, f);
  int x = f ? (int)v : g_replay ? lo : lo + (int)R(hi - lo + 1);
  if (x < lo || x > hi) longjmp(g_skip, 1);
  note(n, 'i', (uint32_t)x);
  return x;
}
bool vc_split(bool b) { return b; }
void vc_assume(bool b) { if (!b) { g_assumed = true; longjmp(g_skip, 1); } }
void vc_assert(bool b, const char* n) { if (!b) die(n); }
void vc_cover(const char*) {}
int vc_mode() { return 3; }
bool vc_near(float a, float b, float scale) {
  if (a == b || (a != a && b != b)) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return !std::isfinite(scale) || std::fabs(scale) > 1e30f;
  return std::fabs((double)a - b) <= 2e-5 * (std::fabs((double)scale) + std::fabs((double)a) * 0.0) + 1e-30;
}
bool vc_within(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + 1e-4) + 1e-6; }
float vc_ghost(float x) { return x; }
bool vc_identical(float a, float b) { return a == b; }
bool vc_same(float a, float b) { return a == b || (a != a && b != b); }
[[noreturn]] void vc_check_failed(const char* m) { char b[300]; snprintf(b, 300, "CHECK failed: %s", m); die(b); __builtin_unreachable(); }
}
int main(int argc, char** argv) {
  // usage: replay FN FILE | search FN SECONDS SEED
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!fn) { fprintf(stderr, "no harness %s\n", argv[2]); return 3; }
  g_current = argv[2];
  if (!strcmp(argv[1], "replay")) {
    g_replay = true;
    FILE* f = fopen(argv[3], "r");
    char line[512], name[256]; char k; unsigned long long v;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "INPUT %255s %c %llu", name, &k, &v) == 3) g_vals[name] = v;
    if (f) fclose(f);
    alarm(20);
    if (setjmp(g_skip)) { printf("SKIP precondition not met\n"); return 2; }
    fn();
    printf("PASS\n");
    return 0;
  }
  double secs = atof(argv[3]); g_rng.seed(atoi(argv[4]));
  struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
  volatile long n = 0, ok = 0;
  for (;;) {
    clock_gettime(CLOCK_MONOTONIC, &b);
    if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
    for (int i = 0; i < 50; i++) {
      g_counts.clear(); g_nused = 0; g_recent.clear();
      n++;
      alarm(20);
      if (setjmp(g_skip)) continue;
      fn();
      ok++;
    }
  }
  printf("SEARCHED %ld %ld\n", (long)n, (long)ok);
  return 0;
}
