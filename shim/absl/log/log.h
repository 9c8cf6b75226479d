#ifndef SHIM_ABSL_LOG_LOG_H_
#define SHIM_ABSL_LOG_LOG_H_
#include "absl/log/log_internal_shim.h"
#define LOG(sev) SHIM_LOG(sev)
#define PLOG(sev) SHIM_LOG(sev)
#define LOG_IF(sev, cond) SHIM_LOG_IF(sev, cond)
#ifndef NDEBUG
#define DLOG(sev) SHIM_LOG(sev)
#else
#define DLOG(sev) SHIM_LOG_IF(sev, false)
#endif
#define VLOG(n) SHIM_LOG_IF(INFO, false)
#endif
