#ifndef SHIM_ABSL_TIME_H_
#define SHIM_ABSL_TIME_H_
#include <chrono>
#include <cmath>
#include <compare>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <limits>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include "absl/strings/numbers.h"
namespace absl {
// Nanosecond resolution (abseil: 1/4 ns), saturating at +-infinity.
class Duration {
 public:
  constexpr Duration() = default;
  static constexpr Duration FromRep(__int128 ns) {
    Duration d;
    constexpr __int128 kMax = static_cast<__int128>(std::numeric_limits<int64_t>::max()) * 1000000000;
    d.ns_ = ns > kMax ? Inf() : ns < -kMax ? -Inf() : ns;
    return d;
  }
  static constexpr __int128 Inf() { return static_cast<__int128>(std::numeric_limits<int64_t>::max()) * 4000000000LL; }
  constexpr __int128 rep() const { return ns_; }
  constexpr bool inf() const { return ns_ == Inf() || ns_ == -Inf(); }
  friend constexpr auto operator<=>(Duration a, Duration b) = default;
  friend constexpr bool operator==(Duration a, Duration b) = default;
  constexpr Duration operator-() const { Duration d; d.ns_ = -ns_; return d; }
  constexpr Duration& operator+=(Duration o) { if (inf()) { return *this; } if (o.inf()) { ns_ = o.ns_; return *this; } return *this = FromRep(ns_ + o.ns_); }
  constexpr Duration& operator-=(Duration o) { return *this += -o; }
  template <typename T> requires(std::is_arithmetic_v<T>)
  constexpr Duration& operator*=(T v) {
    if (inf()) { if (v < T{}) { ns_ = -ns_; } return *this; }
    if constexpr (std::is_integral_v<T>) { return *this = FromRep(ns_ * static_cast<__int128>(v)); }
    else { return *this = FromRep(static_cast<__int128>(static_cast<long double>(ns_) * v)); }
  }
  template <typename T> requires(std::is_arithmetic_v<T>)
  constexpr Duration& operator/=(T v) {
    if (inf()) { return *this; }
    if constexpr (std::is_integral_v<T>) { return *this = FromRep(ns_ / static_cast<__int128>(v)); }
    else { return *this = FromRep(static_cast<__int128>(static_cast<long double>(ns_) / v)); }
  }
 private:
  __int128 ns_ = 0;
};
constexpr Duration operator+(Duration a, Duration b) { return a += b; }
constexpr Duration operator-(Duration a, Duration b) { return a -= b; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration operator*(Duration a, T b) { return a *= b; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration operator*(T b, Duration a) { return a *= b; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration operator/(Duration a, T b) { return a /= b; }
constexpr int64_t operator/(Duration a, Duration b) { return static_cast<int64_t>(a.rep() / b.rep()); }
constexpr Duration ZeroDuration() { return Duration(); }
constexpr Duration InfiniteDuration() { return Duration::FromRep(Duration::Inf()); }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Nanoseconds(T n) { return Duration::FromRep(1) * n; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Microseconds(T n) { return Duration::FromRep(1000) * n; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Milliseconds(T n) { return Duration::FromRep(1000000) * n; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Seconds(T n) { return Duration::FromRep(1000000000) * n; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Minutes(T n) { return Duration::FromRep(60000000000LL) * n; }
template <typename T> requires(std::is_arithmetic_v<T>) constexpr Duration Hours(T n) { return Duration::FromRep(3600000000000LL) * n; }
constexpr int64_t ToInt64Nanoseconds(Duration d) { return static_cast<int64_t>(d.rep()); }
constexpr int64_t ToInt64Microseconds(Duration d) { return static_cast<int64_t>(d.rep() / 1000); }
constexpr int64_t ToInt64Milliseconds(Duration d) { return static_cast<int64_t>(d.rep() / 1000000); }
constexpr int64_t ToInt64Seconds(Duration d) { return static_cast<int64_t>(d.rep() / 1000000000); }
inline double ToDoubleSeconds(Duration d) { return static_cast<double>(d.rep()) / 1e9; }
inline double ToDoubleMilliseconds(Duration d) { return static_cast<double>(d.rep()) / 1e6; }
inline double ToDoubleNanoseconds(Duration d) { return static_cast<double>(d.rep()); }
constexpr Duration AbsDuration(Duration d) { return d < Duration() ? -d : d; }
inline std::chrono::nanoseconds ToChronoNanoseconds(Duration d) { return std::chrono::nanoseconds(static_cast<int64_t>(d.rep())); }
template <typename R, typename P>
constexpr Duration FromChrono(const std::chrono::duration<R, P>& d) { return Duration::FromRep(static_cast<__int128>(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())); }
inline std::string FormatDuration(Duration d) {
  if (d.inf()) { return d < Duration() ? "-inf" : "inf"; }
  __int128 n = d.rep();
  if (n == 0) { return "0"; }
  std::string r;
  if (n < 0) { r = "-"; n = -n; }
  const auto trim = [](long double v, int prec, const char* unit) {
    char b[64];
    std::snprintf(b, sizeof(b), "%.*Lf", prec, v);
    std::string s = b;
    if (s.find('.') != s.npos) { while (s.back() == '0') { s.pop_back(); } if (s.back() == '.') { s.pop_back(); } }
    return s == "0" ? std::string() : s + unit;
  };
  if (n < 1000000000) {
    if (n < 1000) { return r + trim(static_cast<long double>(n), 2, "ns"); }
    if (n < 1000000) { return r + trim(static_cast<long double>(n) / 1e3L, 5, "us"); }
    return r + trim(static_cast<long double>(n) / 1e6L, 8, "ms");
  }
  const int64_t h = static_cast<int64_t>(n / 3600000000000LL);
  n %= 3600000000000LL;
  const int64_t m = static_cast<int64_t>(n / 60000000000LL);
  n %= 60000000000LL;
  if (h) { r += std::to_string(h) + "h"; }
  if (m) { r += std::to_string(m) + "m"; }
  return r + trim(static_cast<long double>(n) / 1e9L, 11, "s");
}
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }
template <typename Sink> void AbslStringify(Sink& s, Duration d) { s.Append(FormatDuration(d)); }
inline bool ParseDuration(std::string_view s, Duration* out) {
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) { return false; }
  if (s == "0") { *out = Duration(); return true; }
  if (s == "inf") { *out = neg ? -InfiniteDuration() : InfiniteDuration(); return true; }
  Duration d;
  while (!s.empty()) {
    std::size_t n = 0;
    while (n < s.size() && (s[n] == '.' || (s[n] >= '0' && s[n] <= '9'))) { ++n; }
    if (n == 0) { return false; }
    const double v = std::stod(std::string(s.substr(0, n)));
    s.remove_prefix(n);
    if (s.starts_with("ns")) { d += Nanoseconds(v); s.remove_prefix(2); }
    else if (s.starts_with("us")) { d += Microseconds(v); s.remove_prefix(2); }
    else if (s.starts_with("ms")) { d += Milliseconds(v); s.remove_prefix(2); }
    else if (s.starts_with("s")) { d += Seconds(v); s.remove_prefix(1); }
    else if (s.starts_with("m")) { d += Minutes(v); s.remove_prefix(1); }
    else if (s.starts_with("h")) { d += Hours(v); s.remove_prefix(1); }
    else { return false; }
  }
  *out = neg ? -d : d;
  return true;
}
class Time {
 public:
  constexpr Time() = default;
  constexpr explicit Time(Duration d) : d_(d) {}
  constexpr Duration since() const { return d_; }
  friend constexpr auto operator<=>(Time a, Time b) = default;
  friend constexpr bool operator==(Time a, Time b) = default;
  constexpr Time& operator+=(Duration d) { d_ += d; return *this; }
  constexpr Time& operator-=(Duration d) { d_ -= d; return *this; }
 private:
  Duration d_;
};
constexpr Time operator+(Time t, Duration d) { return t += d; }
constexpr Time operator+(Duration d, Time t) { return t += d; }
constexpr Time operator-(Time t, Duration d) { return t -= d; }
constexpr Duration operator-(Time a, Time b) { return a.since() - b.since(); }
constexpr Time UnixEpoch() { return Time(); }
constexpr Time InfiniteFuture() { return Time(InfiniteDuration()); }
constexpr Time InfinitePast() { return Time(-InfiniteDuration()); }
constexpr Time FromUnixSeconds(int64_t s) { return Time(Seconds(s)); }
constexpr Time FromUnixMillis(int64_t s) { return Time(Milliseconds(s)); }
constexpr Time FromUnixMicros(int64_t s) { return Time(Microseconds(s)); }
constexpr Time FromUnixNanos(int64_t s) { return Time(Nanoseconds(s)); }
constexpr Time FromTimeT(time_t t) { return FromUnixSeconds(t); }
constexpr int64_t ToUnixSeconds(Time t) { const __int128 r = t.since().rep(); return static_cast<int64_t>(r >= 0 ? r / 1000000000 : -((-r + 999999999) / 1000000000)); }
constexpr int64_t ToUnixNanos(Time t) { return static_cast<int64_t>(t.since().rep()); }
constexpr int64_t ToUnixMillis(Time t) { return static_cast<int64_t>(t.since().rep() / 1000000); }
inline time_t ToTimeT(Time t) { return ToUnixSeconds(t); }
inline Time FromChrono(const std::chrono::system_clock::time_point& t) { return Time(FromChrono(t.time_since_epoch())); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(ToChronoNanoseconds(t.since()))); }
class TimeZone {
 public:
  TimeZone() = default;
  explicit TimeZone(int offset, std::string name, bool local = false) : off_(offset), name_(std::move(name)), local_(local) {}
  std::string name() const { return name_; }
  int offset() const { return off_; }
  bool local() const { return local_; }
  friend bool operator==(const TimeZone& a, const TimeZone& b) { return a.off_ == b.off_ && a.local_ == b.local_; }
  friend std::ostream& operator<<(std::ostream& os, const TimeZone& tz) { return os << tz.name_; }
  template <typename H> friend H AbslHashValue(H h, const TimeZone& tz) { return H::combine(std::move(h), tz.off_); }
 private:
  int off_ = 0;
  std::string name_ = "UTC";
  bool local_ = false;
};
inline TimeZone UTCTimeZone() { return TimeZone(); }
inline TimeZone LocalTimeZone() { return TimeZone(0, "localtime", true); }
inline TimeZone FixedTimeZone(int seconds) { return TimeZone(seconds, "Fixed"); }
inline bool LoadTimeZone(std::string_view name, TimeZone* tz) { if (name == "UTC" || name == "localtime") { *tz = name == "UTC" ? UTCTimeZone() : LocalTimeZone(); return true; } return false; }
inline constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
inline constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
inline std::string FormatTime(std::string_view fmt, Time t, TimeZone tz) {
  if (t == InfiniteFuture()) { return "infinite-future"; }
  if (t == InfinitePast()) { return "infinite-past"; }
  const int64_t secs = ToUnixSeconds(t);
  const int64_t nanos = static_cast<int64_t>(t.since().rep() - static_cast<__int128>(secs) * 1000000000);
  std::tm tm{};
  const time_t tt = static_cast<time_t>(secs + (tz.local() ? 0 : tz.offset()));
  if (tz.local()) { localtime_r(&tt, &tm); } else { gmtime_r(&tt, &tm); tm.tm_gmtoff = tz.offset(); }
  std::string out;
  char b[256];
  const auto frac = [&](int digits) { std::snprintf(b, sizeof(b), "%09lld", static_cast<long long>(nanos)); return std::string(b, static_cast<std::size_t>(digits)); };
  const auto zone = [&](bool colon, bool secs_too) {
    const long o = tm.tm_gmtoff;
    const long a = o < 0 ? -o : o;
    std::snprintf(b, sizeof(b), colon ? "%c%02ld:%02ld" : "%c%02ld%02ld", o < 0 ? '-' : '+', a / 3600, a / 60 % 60);
    (void)secs_too;
    return std::string(b);
  };
  for (std::size_t p = 0; p < fmt.size(); ++p) {
    if (fmt[p] != '%' || p + 1 >= fmt.size()) { out += fmt[p]; continue; }
    ++p;
    if (fmt[p] == 'z') { out += zone(false, false); continue; }
    if (fmt[p] == ':' && p + 1 < fmt.size() && fmt[p + 1] == 'z') { ++p; out += zone(true, false); continue; }
    if (fmt[p] == 's') { out += std::to_string(secs); continue; }
    if (fmt[p] == 'Z') { out += tz.local() ? std::string(tm.tm_zone ? tm.tm_zone : "") : tz.offset() == 0 ? "UTC" : zone(false, false); continue; }
    if (fmt[p] == 'E' && p + 1 < fmt.size()) {
      const char c = fmt[p + 1];
      if (c == 'T') { out += 'T'; ++p; continue; }
      if (c == 'z') { out += zone(true, false); ++p; continue; }
      if (c == '*' && p + 2 < fmt.size() && (fmt[p + 2] == 'S' || fmt[p + 2] == 'f')) {
        std::string f = frac(9);
        while (!f.empty() && f.back() == '0') { f.pop_back(); }
        if (fmt[p + 2] == 'S') { std::strftime(b, sizeof(b), "%S", &tm); out += b; if (!f.empty()) { out += "." + f; } } else { out += f.empty() ? "0" : f; }
        p += 2;
        continue;
      }
      if (c >= '0' && c <= '9' && p + 2 < fmt.size() && (fmt[p + 2] == 'S' || fmt[p + 2] == 'f')) {
        const int n = c - '0';
        if (fmt[p + 2] == 'S') { char s[8]; std::strftime(s, sizeof(s), "%S", &tm); out += s; if (n > 0) { out += "." + frac(n); } } else { out += frac(n); }
        p += 2;
        continue;
      }
      if (c == '4' && p + 2 < fmt.size() && fmt[p + 2] == 'Y') { std::snprintf(b, sizeof(b), "%04d", tm.tm_year + 1900); out += b; p += 2; continue; }
    }
    const char f2[3] = {'%', fmt[p], 0};
    if (fmt[p] == '%') { out += '%'; continue; }
    if (fmt[p] == 'Y') { out += std::to_string(tm.tm_year + 1900); continue; }
    if (std::strftime(b, sizeof(b), f2, &tm) > 0) { out += b; }
  }
  return out;
}
inline std::string FormatTime(Time t, TimeZone tz) { return FormatTime(RFC3339_full, t, tz); }
inline std::string FormatTime(Time t) { return FormatTime(RFC3339_full, t, LocalTimeZone()); }
inline std::ostream& operator<<(std::ostream& os, Time t) { return os << FormatTime(t); }
template <typename Sink> void AbslStringify(Sink& s, Time t) { s.Append(FormatTime(t)); }
template <typename H> H AbslHashValue(H h, Duration d) { return H::combine(std::move(h), static_cast<int64_t>(d.rep())); }
template <typename H> H AbslHashValue(H h, Time d) { return H::combine(std::move(h), static_cast<int64_t>(d.since().rep())); }
inline bool AbslParseFlag(std::string_view text, Duration* d, std::string* err) { if (ParseDuration(text, d)) { return true; } *err = "bad duration"; return false; }
inline std::string AbslUnparseFlag(Duration d) { return FormatDuration(d); }
}  // namespace absl
#endif
