#ifndef VCSHIM_STRING_VIEW_H_
#define VCSHIM_STRING_VIEW_H_
#include <string>
#include <string_view>
namespace absl { using std::string_view; }
#endif
