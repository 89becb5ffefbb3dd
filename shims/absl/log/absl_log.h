#ifndef VCSHIM_ABSL_LOG_H_
#define VCSHIM_ABSL_LOG_H_
#include "absl/log/vcshim_fail.h"
#define VCSHIM_LOG_FATAL ::vcshim::Voidify() & ::vcshim::Fail("LOG(FATAL)").stream()
#define VCSHIM_LOG_DFATAL VCSHIM_LOG_FATAL
#define VCSHIM_LOG_INFO VCSHIM_EVAL_NOTHING()
#define VCSHIM_LOG_WARNING VCSHIM_EVAL_NOTHING()
#define VCSHIM_LOG_ERROR VCSHIM_EVAL_NOTHING()
#define ABSL_LOG(sev) VCSHIM_LOG_##sev
#endif
