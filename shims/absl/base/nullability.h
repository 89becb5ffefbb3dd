#ifndef VCSHIM_NULLABILITY_H_
#define VCSHIM_NULLABILITY_H_
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#endif
