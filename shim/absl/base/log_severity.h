#ifndef SHIM_ABSL_BASE_LOG_SEVERITY_H_
#define SHIM_ABSL_BASE_LOG_SEVERITY_H_
#include <array>
#include <ostream>
namespace absl {
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
constexpr const char* LogSeverityName(LogSeverity s) {
  switch (s) {
    case LogSeverity::kInfo: return "INFO";
    case LogSeverity::kWarning: return "WARNING";
    case LogSeverity::kError: return "ERROR";
    case LogSeverity::kFatal: return "FATAL";
  }
  return "UNKNOWN";
}
constexpr std::array<LogSeverity, 4> LogSeverities() {
  return {LogSeverity::kInfo, LogSeverity::kWarning, LogSeverity::kError, LogSeverity::kFatal};
}
constexpr LogSeverity NormalizeLogSeverity(LogSeverity s) {
  return s < LogSeverity::kInfo ? LogSeverity::kInfo : (s > LogSeverity::kFatal ? LogSeverity::kError : s);
}
constexpr LogSeverity NormalizeLogSeverity(int s) { return NormalizeLogSeverity(static_cast<LogSeverity>(s)); }
inline std::ostream& operator<<(std::ostream& os, LogSeverity s) {
  if (s == NormalizeLogSeverity(s)) { return os << LogSeverityName(s); }
  return os << "absl::LogSeverity(" << static_cast<int>(s) << ")";
}
template <typename Sink>
void AbslStringify(Sink& sink, LogSeverity s) { sink.Append(LogSeverityName(s)); }
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
enum class LogSeverityAtMost : int { kNegativeInfinity = -1000, kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
}  // namespace absl
#endif
