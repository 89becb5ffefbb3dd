#ifndef VCSHIM_SUBSTITUTE_H_
#define VCSHIM_SUBSTITUTE_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A> std::string Substitute(std::string_view, const A&...) { return std::string(); }
template <typename... A> void SubstituteAndAppend(std::string*, std::string_view, const A&...) {}
}
#endif
