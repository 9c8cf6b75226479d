#ifndef SHIM_ABSL_ABSL_LOG_H_
#define SHIM_ABSL_ABSL_LOG_H_
#include "absl/log/log_internal_shim.h"
#define ABSL_LOG(sev) SHIM_LOG(sev)
#define ABSL_PLOG(sev) SHIM_LOG(sev)
#define ABSL_LOG_IF(sev, cond) SHIM_LOG_IF(sev, cond)
#define ABSL_LOG_EVERY_N(sev, n) SHIM_LOG(sev)
#define ABSL_LOG_FIRST_N(sev, n) SHIM_LOG(sev)
#ifndef NDEBUG
#define ABSL_DLOG(sev) SHIM_LOG(sev)
#define ABSL_DLOG_IF(sev, cond) SHIM_LOG_IF(sev, cond)
#else
#define ABSL_DLOG(sev) SHIM_LOG_IF(sev, false)
#define ABSL_DLOG_IF(sev, cond) SHIM_LOG_IF(sev, false && (cond))
#endif
#endif
