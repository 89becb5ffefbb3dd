// JStringView / JStringToStdString against a ghost model of the Java VM.
// VC-SOURCES: ink/jni/internal/jni_string_util.cc
// VC-OPT: max_iter=330
// VC-FLAGS: -I/usr/lib/jvm/java-17-openjdk-amd64/include -I/usr/lib/jvm/java-17-openjdk-amd64/include/linux
// VC-BOUND: conversion to std::string is proved for lengths 0, 1, 2, 5, 15, 16, 19 and 300; the view itself for every length
#include <string>
#include "vc.h"
#include "ink/jni/internal/jni_string_util.h"
using ink::jni::JStringView; using ink::jni::JStringToStdString;
namespace {
_jstring kLocal, kGlobal;
char kChars[320];
struct Vm {
  bool local_live = true;   // the caller's reference is valid only during construction
  int globals = 0;          // global references to the string that are live
  int buffers = 0;          // borrowed character buffers that are live
  int news = 0, gets = 0, releases = 0, deletes = 0, calls = 0;
  jsize len = 0;
};
Vm g;
bool live(jobject o) { return ((o == &kLocal) & g.local_live) | ((o == &kGlobal) & (g.globals > 0)); }
jobject JNICALL NewGlobalRef(JNIEnv*, jobject o) { ++g.calls; vc_assert(live(o), "NewGlobalRef is given a live reference"); ++g.globals; ++g.news; return &kGlobal; }
void JNICALL DeleteGlobalRef(JNIEnv*, jobject o) {
  ++g.calls; vc_assert((o == &kGlobal) & (g.globals > 0), "DeleteGlobalRef is given the acquired reference");
  vc_assert(g.buffers < g.globals, "the buffer is released before the reference"); --g.globals; ++g.deletes;
}
const char* JNICALL GetStringUTFChars(JNIEnv*, jstring s, jboolean* c) { ++g.calls; vc_assert(live(s), "GetStringUTFChars is given a live reference"); if (c) *c = JNI_TRUE; ++g.buffers; ++g.gets; return kChars; }
jsize JNICALL GetStringUTFLength(JNIEnv*, jstring s) { ++g.calls; vc_assert(live(s), "GetStringUTFLength is given a live reference"); return g.len; }
jsize JNICALL GetStringLength(JNIEnv*, jstring s) { ++g.calls; vc_assert(live(s), "GetStringLength is given a live reference"); return g.len / 2; }
void JNICALL ReleaseStringUTFChars(JNIEnv*, jstring s, const char* c) {
  ++g.calls; vc_assert(live(s), "ReleaseStringUTFChars is given a live reference");
  vc_assert((c == kChars) & (g.buffers > 0), "the borrowed buffer is released"); --g.buffers; ++g.releases;
}
struct Fake {
  JNINativeInterface_ table = {};
  JNIEnv_ env;
  Fake() {
    table.NewGlobalRef = NewGlobalRef; table.DeleteGlobalRef = DeleteGlobalRef; table.GetStringUTFChars = GetStringUTFChars;
    table.GetStringUTFLength = GetStringUTFLength; table.GetStringLength = GetStringLength; table.ReleaseStringUTFChars = ReleaseStringUTFChars;
    env.functions = &table;
    g = Vm();
  }
};
void balanced(int views) {
  vc_assert((g.globals == 0) & (g.buffers == 0), "everything borrowed is released");
  vc_assert((g.news == views) & (g.deletes == views) & (g.gets == views) & (g.releases == views), "acquired and released exactly once");
}
}  // namespace
VC_PROOF(fp, view) {
  Fake f; JNIEnv* env = &f.env;
  g.len = vc_i32("len"); vc_assume((g.len >= 0) & ((vc_mode() != 3) | (g.len < 320)));
  if (vc_mode() == 3) for (int i = 0; i < g.len; ++i) kChars[i] = 'a';
  {
    JStringView v(env, &kLocal);
    g.local_live = false;
    vc_assert((v.string_view().data() == kChars) & (v.string_view().size() == static_cast<size_t>(g.len)), "the view is exactly the VM's characters");
    vc_assert((g.globals == 1) & (g.buffers == 1), "one reference and one buffer while viewing");
    vc_assert((g.releases == 0) & (g.deletes == 0), "nothing is released while viewing");
    int c = g.calls;
    absl::string_view a = v.string_view(), b = v.string_view();
    vc_assert((a.data() == b.data()) & (a.size() == b.size()) & (g.calls == c), "reading the view does not touch the VM");
  }
  balanced(1);
  if (vc_mode() == 3) for (char& c : kChars) c = 0;
}
VC_PROOF(fp, null) {
  Fake f;
  {
    JStringView v(&f.env, nullptr);
    vc_assert(v.string_view().empty(), "a null string is viewed as empty");
    vc_assert(g.calls == 0, "a null string does not touch the VM");
  }
  vc_assert(g.calls == 0, "destroying the view of a null string does not touch the VM");
  vc_assert(JStringToStdString(&f.env, nullptr).empty() & (g.calls == 0), "a null string converts to an empty one");
}
VC_PROOF(fp, nested) {
  Fake f;
  g.len = vc_i32("len"); vc_assume((g.len >= 0) & (g.len < 320));
  {
    JStringView v(&f.env, &kLocal);
    { JStringView w(&f.env, &kLocal); vc_assert((g.globals == 2) & (g.buffers == 2), "each view holds its own"); JStringView n(&f.env, nullptr); }
    vc_assert((g.globals == 1) & (g.buffers == 1), "destroying one view leaves the other");
    vc_assert(v.string_view().data() == kChars, "the other view is unchanged");
  }
  balanced(2);
}
static void to_string(int n) {
  Fake f;
  char want[310] = {};
  for (int i = 0; i < n; ++i) { want[i] = kChars[i] = static_cast<char>(vc_u8("c")); vc_assume(want[i] != 0); }
  kChars[n] = 0;
  g.len = n;
  std::string s = JStringToStdString(&f.env, &kLocal);
  vc_assert(s.size() == static_cast<size_t>(n), "the string has the VM's length");
  for (int i = 0; i < n; ++i) vc_assert(s[i] == want[i], "the string has the VM's characters");
  balanced(1);
  for (char& c : kChars) c = 0;
  vc_assert(s.size() == static_cast<size_t>(n), "the string outlives the buffer");
  for (int i = 0; i < n; ++i) vc_assert(s[i] == want[i], "the string is a copy");
}
VC_PROOF(fp, to_string0) { to_string(0); }
VC_PROOF(fp, to_string1) { to_string(1); }
VC_PROOF(fp, to_string2) { to_string(2); }
VC_PROOF(fp, to_string5) { to_string(5); }
VC_PROOF(fp, to_string15) { to_string(15); }
VC_PROOF(fp, to_string16) { to_string(16); }
VC_PROOF(fp, to_string19) { to_string(19); }
VC_PROOF(fp, to_string300) { to_string(300); }
