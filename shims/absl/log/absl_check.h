#ifndef VCSHIM_ABSL_CHECK_H_
#define VCSHIM_ABSL_CHECK_H_
#include "absl/log/vcshim_fail.h"
#define ABSL_CHECK(c) VCSHIM_CHECK((c), "CHECK(" #c ")")
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_CHECK_EQ(a, b) VCSHIM_CHECK((a) == (b), "CHECK_EQ(" #a ", " #b ")")
#define ABSL_CHECK_NE(a, b) VCSHIM_CHECK((a) != (b), "CHECK_NE(" #a ", " #b ")")
#define ABSL_CHECK_LT(a, b) VCSHIM_CHECK((a) < (b), "CHECK_LT(" #a ", " #b ")")
#define ABSL_CHECK_LE(a, b) VCSHIM_CHECK((a) <= (b), "CHECK_LE(" #a ", " #b ")")
#define ABSL_CHECK_GT(a, b) VCSHIM_CHECK((a) > (b), "CHECK_GT(" #a ", " #b ")")
#define ABSL_CHECK_GE(a, b) VCSHIM_CHECK((a) >= (b), "CHECK_GE(" #a ", " #b ")")
#define ABSL_CHECK_OK(s) VCSHIM_CHECK((s).ok(), "CHECK_OK(" #s ")")
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#endif
