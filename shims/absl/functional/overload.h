#ifndef VCSHIM_OVERLOAD_H_
#define VCSHIM_OVERLOAD_H_
namespace absl {
template <typename... T> struct Overload final : T... { using T::operator()...; };
template <typename... T> Overload(T...) -> Overload<T...>;
}
#endif
