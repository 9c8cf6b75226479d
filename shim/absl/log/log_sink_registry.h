#ifndef SHIM_ABSL_LOG_SINK_REGISTRY_H_
#define SHIM_ABSL_LOG_SINK_REGISTRY_H_
#include "absl/log/log_internal_shim.h"
namespace absl {
inline void AddLogSink(LogSink* s) { auto& st = log_internal::GetState(); const std::lock_guard<std::mutex> l(st.mu); st.sinks.push_back(s); }
inline void RemoveLogSink(LogSink* s) { auto& st = log_internal::GetState(); const std::lock_guard<std::mutex> l(st.mu); std::erase(st.sinks, s); }
}  // namespace absl
#endif
