#ifndef SHIM_ABSL_LOG_GLOBALS_H_
#define SHIM_ABSL_LOG_GLOBALS_H_
#include "absl/log/log_internal_shim.h"
namespace absl {
inline void SetStderrThreshold(LogSeverityAtLeast s) { log_internal::GetState().stderr_threshold = static_cast<int>(s); }
inline void SetStderrThreshold(LogSeverity s) { log_internal::GetState().stderr_threshold = static_cast<int>(s); }
inline LogSeverityAtLeast StderrThreshold() { return static_cast<LogSeverityAtLeast>(log_internal::GetState().stderr_threshold.load()); }
inline void SetMinLogLevel(LogSeverityAtLeast s) { log_internal::GetState().min_level = static_cast<int>(s); }
inline LogSeverityAtLeast MinLogLevel() { return static_cast<LogSeverityAtLeast>(log_internal::GetState().min_level.load()); }
}  // namespace absl
#endif
