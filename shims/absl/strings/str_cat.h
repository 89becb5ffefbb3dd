#ifndef VCSHIM_STR_CAT_H_
#define VCSHIM_STR_CAT_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
// Verification shim: message text is not part of any contract, so formatting
// yields an empty string -- except that with INK_VC_REAL_STRINGS string and
// integer pieces are really concatenated.
namespace absl {
struct Hex { template <typename... A> explicit Hex(const A&...) {} };
enum PadSpec { kNoPad = 1, kZeroPad2 = 2, kZeroPad8 = 8 };
namespace vcshim_strings {
struct Sink {
  std::string& s;
  void Append(std::string_view v) { s.append(v); }
  void Append(size_t n, char c) { s.append(n, c); }
};
template <typename T, typename = void> struct HasStringify { static constexpr bool value = false; };
template <typename T> struct HasStringify<T, decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))> { static constexpr bool value = true; };
template <typename T>
void Piece(std::string& s, const T& v) {
#ifdef INK_VC_REAL_STRINGS
  if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    s.append(std::string_view(v));
  } else if constexpr (std::is_same_v<T, char>) {
  } else if constexpr (HasStringify<T>::value) {
    Sink k{s}; AbslStringify(k, v);
  } else if constexpr (std::is_integral_v<T>) {
    unsigned long long u = static_cast<unsigned long long>(v);
    if constexpr (std::is_signed_v<T>) {
      if (v < 0) { s.push_back('-'); u = 0ull - u; }
    }
    char buf[24]; int n = 0;
    do { buf[n++] = static_cast<char>('0' + u % 10); u /= 10; } while (u != 0);
    while (n > 0) s.push_back(buf[--n]);
  }
#endif
}
}
template <typename... A> std::string StrCat(const A&... a) {
  std::string s; (vcshim_strings::Piece(s, a), ...); return s;
}
template <typename... A> void StrAppend(std::string* s, const A&... a) {
  (vcshim_strings::Piece(*s, a), ...);
}
}
#endif
