#ifndef SHIM_ABSL_FLAG_H_
#define SHIM_ABSL_FLAG_H_
#include <cstdint>
#include <map>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/base/log_severity.h"
#include "absl/flags/commandlineflag.h"
#include "absl/flags/declare.h"
#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
namespace absl {
namespace flags_internal {
inline std::map<std::string, CommandLineFlag*, std::less<>>& Registry() { static auto* r = new std::map<std::string, CommandLineFlag*, std::less<>>; return *r; }
template <typename T> struct IsOpt : std::false_type {};
template <typename T> struct IsOpt<std::optional<T>> : std::true_type {};
template <typename T> bool Parse(std::string_view text, T* dst, std::string* err);
template <typename T> std::string Unparse(const T& v);
}  // namespace flags_internal
template <typename T>
bool ParseFlag(std::string_view text, T* dst, std::string* err) { return flags_internal::Parse(text, dst, err); }
template <typename T>
std::string UnparseFlag(const T& v) { return flags_internal::Unparse(v); }
inline bool AbslParseFlag(std::string_view text, LogSeverity* dst, std::string* err) {
  text = StripAsciiWhitespace(text);
  if (text.empty()) { *err = "no value provided"; return false; }
  std::string_view t = text;
  if (t[0] == 'k' || t[0] == 'K') { t.remove_prefix(1); }
  if (EqualsIgnoreCase(t, "info")) { *dst = LogSeverity::kInfo; return true; }
  if (EqualsIgnoreCase(t, "warning")) { *dst = LogSeverity::kWarning; return true; }
  if (EqualsIgnoreCase(t, "error")) { *dst = LogSeverity::kError; return true; }
  if (EqualsIgnoreCase(t, "fatal")) { *dst = LogSeverity::kFatal; return true; }
  int n = 0;
  if (SimpleAtoi(text, &n)) { *dst = static_cast<LogSeverity>(n); return true; }
  *err = "only integers and absl::LogSeverity enumerators are accepted";
  return false;
}
inline std::string AbslUnparseFlag(LogSeverity s) { return s == NormalizeLogSeverity(s) ? LogSeverityName(s) : std::to_string(static_cast<int>(s)); }
namespace flags_internal {
template <typename T>
bool Parse(std::string_view text, T* dst, std::string* err) {
  if constexpr (std::is_same_v<T, bool>) { return SimpleAtob(StripAsciiWhitespace(text), dst); }
  else if constexpr (std::is_integral_v<T>) {
    text = StripAsciiWhitespace(text);
    std::string_view h = text;
    if (!h.empty() && h[0] == '-') { h.remove_prefix(1); }
    if (h.size() >= 2 && h[0] == '0' && (h[1] == 'x' || h[1] == 'X')) { return SimpleHexAtoi(text, dst); }
    return SimpleAtoi(text, dst);
  }
  else if constexpr (std::is_same_v<T, double>) { return SimpleAtod(text, dst); }
  else if constexpr (std::is_same_v<T, float>) { return SimpleAtof(text, dst); }
  else if constexpr (std::is_same_v<T, std::string>) { *dst = text; return true; }
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
    if (text.empty()) { dst->clear(); return true; }
    *dst = std::vector<std::string>(StrSplit(text, ','));
    return true;
  }
  else if constexpr (IsOpt<T>::value) {
    if (text.empty()) { dst->reset(); return true; }
    typename T::value_type v{};
    if (!Parse(text, &v, err)) { return false; }
    *dst = std::move(v);
    return true;
  }
  else { return AbslParseFlag(text, dst, err); }
}
template <typename T>
std::string Unparse(const T& v) {
  if constexpr (std::is_same_v<T, bool>) { return v ? "true" : "false"; }
  else if constexpr (std::is_arithmetic_v<T>) { return StrCat(v); }
  else if constexpr (std::is_same_v<T, std::string>) { return v; }
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { return StrJoin(v, ","); }
  else if constexpr (IsOpt<T>::value) { return v ? Unparse(*v) : ""; }
  else { return AbslUnparseFlag(v); }
}
}  // namespace flags_internal
template <typename T>
class Flag : public CommandLineFlag {
 public:
  Flag(const char* name, T def, const char* help) : name_(name), help_(help), def_(def), value_(std::move(def)) { flags_internal::Registry()[name_] = this; }
  std::string_view Name() const override { return name_; }
  std::string Help() const override { return help_; }
  std::string DefaultValue() const override { return flags_internal::Unparse(def_); }
  std::string CurrentValue() const override { return flags_internal::Unparse(Get()); }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  bool ParseFrom(std::string_view v, std::string* err) override {
    T t = Get();
    if (!flags_internal::Parse(v, &t, err)) { return false; }
    Set(std::move(t));
    return true;
  }
  T Get() const { const std::lock_guard<std::mutex> l(mu_); return value_; }
  void Set(T v) { const std::lock_guard<std::mutex> l(mu_); value_ = std::move(v); }
 private:
  mutable std::mutex mu_;
  std::string name_;
  std::string help_;
  T def_;
  T value_;
};
template <typename T> T GetFlag(const Flag<T>& f) { return f.Get(); }
template <typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->Set(T(v)); }
}  // namespace absl
#define ABSL_FLAG(type, name, def, help) \
  namespace absl {} \
  ::absl::Flag<type> FLAGS_##name(#name, ([]() -> type { return def; })(), help)
#define ABSL_RETIRED_FLAG(type, name, def, help) static_assert(true)
#endif
