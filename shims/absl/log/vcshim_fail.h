#ifndef VCSHIM_FAIL_H_
#define VCSHIM_FAIL_H_
// Verification shim: a failed CHECK/LOG(FATAL) is a call to vc_check_failed(),
// which the VC generator treats as "this point must be unreachable" and the
// native replay driver treats as a contract violation.
extern "C" [[noreturn]] void vc_check_failed(const char* what);
namespace vcshim {
struct Stream {
  template <typename T>
  const Stream& operator<<(const T&) const { return *this; }
};
struct Fail {
  [[noreturn]] explicit Fail(const char* what) { vc_check_failed(what); }
  Stream stream() const { return Stream(); }
};
struct Voidify {
  template <typename T>
  void operator&(const T&) const {}
};
}  // namespace vcshim
#define VCSHIM_CHECK(cond, text) \
  (cond) ? (void)0 : ::vcshim::Voidify() & ::vcshim::Fail(text).stream()
#define VCSHIM_EVAL_NOTHING() \
  true ? (void)0 : ::vcshim::Voidify() & ::vcshim::Stream()
#endif
