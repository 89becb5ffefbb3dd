// Asset URIs: the parser accepts exactly the documented grammar, and printing an accepted URI and parsing it again is the
// identity.  Oracle: an independent reader of the grammar in uri.h, run on the same bytes.
// VC-BOUND: strings are the skeletons below with symbolic bytes (all strings of up to 6 bytes; up to 11 arbitrary bytes in one component; every two neighbouring bytes of full URIs replaced, every byte deleted, an arbitrary byte inserted anywhere)
// VC-SOURCES: ink/types/uri.cc
// VC-FLAGS: -DINK_VC_REAL_STRINGS
// VC-OPT: max_iter=2000 nomerge=1 max_states=4000 branch_check=always
#include "vc.h"
#include "ink/types/uri.h"
#include <cstring>
using ink::Uri;
struct Ref { bool ok; int reg0, reg1, name0, name1; int32_t rev; Uri::AssetType type; };
static bool word(char c) { return (c >= 'a' && c <= 'z') || c == '-'; }
static bool lit(const char* s, int n, int i, const char* t) {
  for (int k = 0; t[k]; ++k, ++i) if (i >= n || s[i] != t[k]) return false;
  return true;
}
// [ink:][//reg]/type:name[:rev]
static Ref reference(const char* s, int n) {
  Ref r{false, -1, -1, 0, 0, 1, Uri::AssetType::kUninitialized};
  int i = 0;
  if (n >= 4 && (s[0] == 'i' || s[0] == 'I') && (s[1] == 'n' || s[1] == 'N') && (s[2] == 'k' || s[2] == 'K') && s[3] == ':') i = 4;
  if (lit(s, n, i, "//")) {
    i += 2; r.reg0 = i;
    while (i < n && word(s[i])) ++i;
    r.reg1 = i;
    if (r.reg0 == r.reg1) return r;
  }
  if (lit(s, n, i, "/brush-family:")) { i += 14; r.type = Uri::AssetType::kBrushFamily; }
  else if (lit(s, n, i, "/texture:")) { i += 9; r.type = Uri::AssetType::kTexture; }
  else return r;
  r.name0 = i;
  while (i < n && word(s[i])) ++i;
  r.name1 = i;
  if (r.name0 == r.name1) return r;
  if (i < n) {
    if (s[i] != ':') return r;
    ++i;
    int d = n - i;
    if (d < 1 || d > 9 || s[i] == '0') return r;
    int32_t v = 0;
    for (; i < n; ++i) { if (s[i] < '0' || s[i] > '9') return r; v = v * 10 + (s[i] - '0'); }
    r.rev = v;
  }
  r.ok = true;
  return r;
}
static bool same(absl::string_view v, const char* s, int n) {
  if (v.size() != static_cast<size_t>(n)) return false;
  bool ok = true;
  for (int i = 0; i < n; ++i) ok &= v[i] == s[i];
  return ok;
}
static void run(const char* s, int n, bool trip = true) {
  absl::StatusOr<Uri> u = Uri::Parse(absl::string_view(s, n));
  if (n == 0) {
    vc_assert(u.ok() && *u == Uri() && u->ToNormalizedString().empty(), "the empty string is the default URI");
    return;
  }
  Ref r = reference(s, n);
  vc_assert(u.ok() == r.ok, "a string is accepted exactly when it follows the grammar");
  if (!u.ok() || !r.ok) return;
  vc_assert(u->GetAssetType() == r.type, "the asset type is the one named");
  vc_assert(same(u->GetAssetName(), s + r.name0, r.name1 - r.name0), "the asset name is the one given");
  vc_assert(r.reg0 < 0 ? same(u->GetRegName(), "ink", 3) : same(u->GetRegName(), s + r.reg0, r.reg1 - r.reg0), "the registered name is the one given, or ink");
  vc_assert(u->GetRevisionNumber() == r.rev, "the revision is the one given, or 1");
  bool ink = same(u->GetRegName(), "ink", 3);
  vc_assert(u->HasInkRegName() == ink, "HasInkRegName tells ink from other names");
  vc_assert(*u == *u && !(*u == Uri()), "equality");
  if (!trip) return;
  std::string p = u->ToNormalizedString();
  absl::StatusOr<Uri> w = Uri::Parse(p);
  vc_assert(w.ok(), "the normalised form is accepted");
  if (!w.ok()) return;
  vc_assert(*w == *u, "printing and parsing again gives an equal URI");
  vc_assert(p[0] == '/' && (ink == (p[1] != '/')), "the normalised form has no scheme and no default name");
  size_t longest = 1 + (r.type == Uri::AssetType::kTexture ? 7 : 12) + 1 + (r.name1 - r.name0) + (ink ? 0 : 2 + r.reg1 - r.reg0);
  vc_assert((r.rev == 1) == (p.size() == longest), "the normalised form leaves out exactly the default parts");
}
// s with '?' replaced by arbitrary bytes
static void fill(const char* t, bool trip = true) {
  char s[64]; int n = 0;
  for (; t[n]; ++n) s[n] = t[n] == '?' ? static_cast<char>(vc_u8("c")) : t[n];
  run(s, n, trip);
}
static void one_of(std::initializer_list<const char*> l) {
  int k = vc_choose("case", 0, static_cast<int>(l.size()) - 1);
  fill(l.begin()[k]);
}
VC_PROOF(fp, short0) { fill(""); }
VC_PROOF(fp, short1) { fill("?"); }
VC_PROOF(fp, short2) { fill("??"); }
VC_PROOF(fp, short3) { fill("???"); }
VC_PROOF(fp, short4) { fill("????"); }
VC_PROOF(fp, scheme) { fill("????/texture:a"); }
VC_PROOF(fp, scheme_short) { fill("???/texture:a"); }
VC_PROOF(fp, scheme_long) { fill("????:/texture:a"); }
VC_PROOF(fp, scheme_only) { one_of({"ink:", "ink:?", "ink:??"}); }
VC_PROOF(fp, reg1) { fill("//?/texture:a"); }
VC_PROOF(fp, reg2) { fill("//??/texture:a"); }
VC_PROOF(fp, reg3) { fill("//???/texture:a"); }
VC_PROOF(fp, reg4) { fill("ink://????/texture:a"); }
VC_PROOF(fp, reg0) { one_of({"///texture:a", "//?", "//???"}); }
VC_PROOF(fp, type7a) { fill("/????ure:a"); }
VC_PROOF(fp, type7b) { fill("/tex????:a"); }
VC_PROOF(fp, type6) { one_of({"/????:a", "/text??:a"}); }
VC_PROOF(fp, type12a) { fill("/????h-family:a"); }
VC_PROOF(fp, type12b) { fill("/brus????mily:a"); }
VC_PROOF(fp, type12c) { fill("/brush-fa????:a"); }
VC_PROOF(fp, type_short) { one_of({"/??????:a", "/?:a", "/??", "/?"}); }
VC_PROOF(fp, name0) { one_of({"/texture:", "/texture", "/brush-family:", "/texture?a"}); }
VC_PROOF(fp, name1) { one_of({"/texture:?", "/brush-family:?"}); }
VC_PROOF(fp, name3) { fill("/texture:???"); }
VC_PROOF(fp, name4) { fill("/brush-family:????"); }
VC_PROOF(fp, revision1) { one_of({"/texture:a:?", "/texture:a:", "/texture:a?1"}); }
VC_PROOF(fp, revision2) { fill("/texture:a:??"); }
VC_PROOF(fp, revision3) { fill("/texture:a:???", false); }
VC_PROOF(fp, revision8) { fill("/texture:a:????????", false); }
VC_PROOF(fp, revision9) { fill("/texture:a:?????????", false); }
VC_PROOF(fp, revision10) { fill("/texture:a:??????????", false); }
VC_PROOF(fp, revision11) { fill("/texture:a:???????????", false); }
VC_PROOF(fp, after_revision) { one_of({"/texture:a:1?", "/texture:a:1:?", "/texture:a:1?1", "/texture:a:1#??"}); }
// every pair of neighbouring bytes replaced, every byte inserted, every byte deleted (a case split over the position)
static void pairs(const char* t, int from, int to, bool trip = true) {
  char s[64]; int n = strlen(t);
  int i = vc_choose("at", from, to - 1 < n ? to - 1 : n), k = vc_choose("edit", 0, 2);
  if (k == 0 && i < n) { memcpy(s, t, n + 1); s[i] = '?'; if (i + 1 < n) s[i + 1] = '?'; fill(s, trip); }
  if (k == 1) { memcpy(s, t, i); s[i] = '?'; memcpy(s + i + 1, t + i, n - i + 1); fill(s, trip); }
  if (k == 2 && i < n) { memcpy(s, t, i); memcpy(s + i, t + i + 1, n - i); fill(s, trip); }
}
VC_PROOF(fp, pairs_a0) { pairs("ink://ab-c/texture:n-a:120000", 0, 10); }
VC_PROOF(fp, pairs_a1) { pairs("ink://ab-c/texture:n-a:120000", 10, 20); }
VC_PROOF(fp, pairs_a2) { pairs("ink://ab-c/texture:n-a:120000", 20, 30); }
VC_PROOF(fp, pairs_b0) { pairs("//ink/brush-family:x:1", 0, 11); }
VC_PROOF(fp, pairs_b1) { pairs("//ink/brush-family:x:1", 11, 23); }
VC_PROOF(fp, pairs_c) { pairs("INK:/texture:zz:999999999", 0, 26, false); }
VC_PROOF(fp, long_revisions) { one_of({"/texture:a:999999999", "/texture:a:100000000", "/texture:a:123456789", "/texture:a:1000000000", "/texture:a:2147483647", "/texture:a:10", "/texture:a:1", "/texture:a:2"}); }
VC_PROOF(fp, short5) { fill("?????"); }
VC_PROOF(fp, short6) { fill("??????"); }
VC_PROOF(fp, name7) { fill("/texture:???????"); }
VC_PROOF(fp, reg7) { fill("//???????/texture:a"); }
VC_PROOF(fp, reg_name) { fill("//???/texture:???"); }
VC_PROOF(fp, reg_revision) { fill("//???/brush-family:?:??"); }
