#ifndef VCSHIM_STATUS_H_
#define VCSHIM_STATUS_H_
#include <string>
#include "absl/strings/string_view.h"
// Verification shim: absl::Status reduced to its code. No contract mentions
// message text.
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
class [[nodiscard]] Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, std::string_view) : code_(code) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  std::string_view message() const { return std::string_view(); }
  std::string ToString() const { return std::string(); }
  void Update(const Status& s) { if (ok()) code_ = s.code_; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_; }
  friend bool operator!=(const Status& a, const Status& b) { return a.code_ != b.code_; }
 private:
  StatusCode code_;
};
inline Status OkStatus() { return Status(); }
#define VCSHIM_ERR(N) \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VCSHIM_ERR(InvalidArgument) VCSHIM_ERR(FailedPrecondition) VCSHIM_ERR(Internal)
VCSHIM_ERR(Unimplemented) VCSHIM_ERR(NotFound) VCSHIM_ERR(OutOfRange)
VCSHIM_ERR(Unknown) VCSHIM_ERR(Unavailable) VCSHIM_ERR(AlreadyExists)
VCSHIM_ERR(ResourceExhausted) VCSHIM_ERR(Aborted) VCSHIM_ERR(Cancelled)
#undef VCSHIM_ERR
}  // namespace absl
#endif
