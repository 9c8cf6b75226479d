#ifndef SHIM_ABSL_LOG_INTERNAL_H_
#define SHIM_ABSL_LOG_INTERNAL_H_
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>
#include "absl/base/log_severity.h"
#include "absl/flags/declare.h"
#include "absl/strings/has_absl_stringify.h"
#include "absl/strings/ascii.h"
namespace absl {
class LogEntry {
 public:
  std::string_view source_filename() const { return file; }
  std::string_view source_basename() const { const auto p = file.rfind('/'); return p == file.npos ? std::string_view(file) : std::string_view(file).substr(p + 1); }
  int source_line() const { return line; }
  LogSeverity log_severity() const { return severity; }
  std::string_view text_message() const { return text; }
  std::string file;
  int line = 0;
  LogSeverity severity = LogSeverity::kInfo;
  std::string text;
};
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(const LogEntry& entry) = 0;
  virtual void Flush() {}
};
namespace log_internal {
struct State {
  std::mutex mu;
  std::vector<LogSink*> sinks;
  std::atomic<int> stderr_threshold{2};
  std::atomic<int> min_level{0};
};
inline State& GetState() { static State* s = new State; return *s; }
class LogMessage {
 public:
  LogMessage(const char* file, int line, LogSeverity sev) { e_.file = file; e_.line = line; e_.severity = sev; }
  LogMessage(const LogMessage&) = delete;
  LogMessage& AtLocation(std::string_view file, int line) { e_.file = file; e_.line = line; return *this; }
  LogMessage& NoPrefix() { return *this; }
  LogMessage& WithVerbosity(int) { return *this; }
  LogMessage& WithPerror() { return *this; }
  template <typename T>
  LogMessage& operator<<(const T& v) {
    if constexpr (HasAbslStringify<T>::value) { os_ << strings_internal::StringifyToString(v); } else { os_ << v; }
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*f)(std::ostream&)) { os_ << f; return *this; }
  LogMessage& InternalStream() { return *this; }
  ~LogMessage() {
    e_.text = os_.str();
    State& st = GetState();
    const bool fatal = e_.severity == LogSeverity::kFatal;
    if (static_cast<int>(e_.severity) >= st.min_level || fatal) {
      std::vector<LogSink*> sinks;
      { const std::lock_guard<std::mutex> l(st.mu); sinks = st.sinks; }
      for (LogSink* s : sinks) { s->Send(e_); }
      if (static_cast<int>(e_.severity) >= st.stderr_threshold || fatal) {
        const std::string_view base = e_.source_basename();
        std::fprintf(stderr, "%c %.*s:%d] %s\n", LogSeverityName(NormalizeLogSeverity(e_.severity))[0], (int)base.size(), base.data(), e_.line, e_.text.c_str());
      }
    }
    if (fatal) { std::fflush(nullptr); std::abort(); }
  }
 private:
  LogEntry e_;
  std::ostringstream os_;
};
struct Voidify { template <typename T> void operator&&(const T&) const&& {} };
struct NullStream { template <typename T> NullStream& operator<<(const T&) { return *this; } NullStream& InternalStream() { return *this; } };
constexpr LogSeverity SevINFO() { return LogSeverity::kInfo; }
constexpr LogSeverity SevWARNING() { return LogSeverity::kWarning; }
constexpr LogSeverity SevERROR() { return LogSeverity::kError; }
constexpr LogSeverity SevFATAL() { return LogSeverity::kFatal; }
constexpr LogSeverity SevQFATAL() { return LogSeverity::kFatal; }
#ifdef NDEBUG
constexpr LogSeverity SevDFATAL() { return LogSeverity::kError; }
#else
constexpr LogSeverity SevDFATAL() { return LogSeverity::kFatal; }
#endif
constexpr LogSeverity SevLEVEL(LogSeverity s) { return NormalizeLogSeverity(s); }
constexpr LogSeverity SevLEVEL(int s) { return NormalizeLogSeverity(s); }
template <typename T>
std::string Show(const T& v) {
  std::ostringstream os;
  if constexpr (HasAbslStringify<T>::value) { os << strings_internal::StringifyToString(v); }
  else if constexpr (requires(std::ostream& o) { o << v; }) { os << v; }
  else { os << "UNPRINTABLE"; }
  return os.str();
}
}  // namespace log_internal
}  // namespace absl
#define SHIM_LOG_SEV_INFO ::absl::log_internal::SevINFO()
#define SHIM_LOG_SEV_WARNING ::absl::log_internal::SevWARNING()
#define SHIM_LOG_SEV_ERROR ::absl::log_internal::SevERROR()
#define SHIM_LOG_SEV_FATAL ::absl::log_internal::SevFATAL()
#define SHIM_LOG_SEV_QFATAL ::absl::log_internal::SevQFATAL()
#define SHIM_LOG_SEV_DFATAL ::absl::log_internal::SevDFATAL()
#define SHIM_LOG_SEV_LEVEL(x) ::absl::log_internal::SevLEVEL(x)
#define SHIM_LOG(sev) ::absl::log_internal::LogMessage(__FILE__, __LINE__, SHIM_LOG_SEV_##sev)
#define SHIM_LOG_IF(sev, cond) \
  switch (0) case 0: default: !(cond) ? (void)0 : ::absl::log_internal::Voidify() && SHIM_LOG(sev)
#define SHIM_CHECK(cond, text) \
  switch (0) case 0: default: (cond) ? (void)0 : ::absl::log_internal::Voidify() && SHIM_LOG(FATAL) << "Check failed: " text " "
#define SHIM_CHECK_OP(op, a, b, text) \
  switch (0) case 0: default: ((a)op(b)) ? (void)0 : ::absl::log_internal::Voidify() && SHIM_LOG(FATAL) << "Check failed: " text " (" << ::absl::log_internal::Show(a) << " vs. " << ::absl::log_internal::Show(b) << ") "
#define SHIM_CHECK_OK(s, text) \
  switch (0) case 0: default: (s).ok() ? (void)0 : ::absl::log_internal::Voidify() && SHIM_LOG(FATAL) << "Check failed: " text " is OK (" << ::absl::log_internal::Show(s) << ") "
#endif
