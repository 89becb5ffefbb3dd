#ifndef VCSHIM_MATCH_H_
#define VCSHIM_MATCH_H_
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool StartsWith(std::string_view t, std::string_view p) {
  if (t.size() < p.size()) return false;
  for (size_t i = 0; i < p.size(); ++i) if (t[i] != p[i]) return false;
  return true;
}
inline bool EndsWith(std::string_view t, std::string_view p) {
  if (t.size() < p.size()) return false;
  for (size_t i = 0; i < p.size(); ++i) if (t[t.size() - p.size() + i] != p[i]) return false;
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) {
  if (t.size() < p.size()) return false;
  for (size_t i = 0; i < p.size(); ++i)
    if (ascii_tolower(t[i]) != ascii_tolower(p[i])) return false;
  return true;
}
inline bool EqualsIgnoreCase(std::string_view t, std::string_view p) {
  return t.size() == p.size() && StartsWithIgnoreCase(t, p);
}
inline bool StrContains(std::string_view t, std::string_view p) { return t.find(p) != t.npos; }
inline bool StrContains(std::string_view t, char p) { return t.find(p) != t.npos; }
}
#endif
