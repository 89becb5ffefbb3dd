#ifndef VCSHIM_NUMBERS_H_
#define VCSHIM_NUMBERS_H_
#include <limits>
#include <type_traits>
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
// Decimal integers with optional sign and surrounding ASCII white space, as in
// absl; fails on overflow.
template <typename Int>
bool SimpleAtoi(std::string_view s, Int* out) {
  auto space = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (!s.empty() && space(s.front())) s.remove_prefix(1);
  while (!s.empty() && space(s.back())) s.remove_suffix(1);
  bool neg = false;
  if (!s.empty() && (s.front() == '-' || s.front() == '+')) {
    neg = s.front() == '-';
    s.remove_prefix(1);
  }
  *out = 0;
  if (s.empty()) return false;
  if (neg && !std::is_signed_v<Int>) return false;
  constexpr Int kMax = std::numeric_limits<Int>::max();
  constexpr Int kMin = std::numeric_limits<Int>::min();
  Int v = 0;
  for (char c : s) {
    if (!ascii_isdigit(c)) { *out = v; return false; }
    Int d = c - '0';
    if (!neg) {
      if (v > kMax / 10 || static_cast<Int>(v * 10) > kMax - d) { *out = kMax; return false; }
      v = v * 10 + d;
    } else {
      if (v < kMin / 10 || static_cast<Int>(v * 10) < kMin + d) { *out = kMin; return false; }
      v = v * 10 - d;
    }
  }
  *out = v;
  return true;
}
}
#endif
