#ifndef VCSHIM_STR_FORMAT_H_
#define VCSHIM_STR_FORMAT_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A> std::string StrFormat(const char*, const A&...) { return std::string(); }
template <typename... A> void StrAppendFormat(std::string*, const char*, const A&...) {}
}
#endif
