#ifndef VCSHIM_STR_JOIN_H_
#define VCSHIM_STR_JOIN_H_
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... A> std::string StrJoin(const A&...) { return std::string(); }
}
#endif
