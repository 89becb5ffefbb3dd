#ifndef VCSHIM_STATUSOR_H_
#define VCSHIM_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/vcshim_fail.h"
#include "absl/status/status.h"
namespace absl {
template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) {
    if (s.ok()) vc_check_failed("StatusOr constructed from an OK status");
  }
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U = T,
            typename = std::enable_if_t<
                std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> &&
                !std::is_same_v<std::decay_t<U>, StatusOr> &&
                !std::is_same_v<std::decay_t<U>, Status>>>
  StatusOr(U&& u) : value_(std::forward<U>(u)) {}
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U&&, T> && !std::is_same_v<U, T>>, typename = void>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) {
    if (o.ok()) value_.emplace(*std::move(o));
  }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  const T& value() const& { Need(); return *value_; }
  T& value() & { Need(); return *value_; }
  T&& value() && { Need(); return *std::move(value_); }
  const T& operator*() const& { Need(); return *value_; }
  T& operator*() & { Need(); return *value_; }
  T&& operator*() && { Need(); return *std::move(value_); }
  const T* operator->() const { Need(); return &*value_; }
  T* operator->() { Need(); return &*value_; }
  template <typename U> T value_or(U&& d) const& { return ok() ? *value_ : T(std::forward<U>(d)); }
 private:
  void Need() const { if (!status_.ok()) vc_check_failed("StatusOr accessed without a value"); }
  Status status_;
  std::optional<T> value_;
};
}  // namespace absl
#endif
