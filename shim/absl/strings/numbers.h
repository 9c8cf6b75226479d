#ifndef SHIM_ABSL_NUMBERS_H_
#define SHIM_ABSL_NUMBERS_H_
#include <charconv>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <string>
#include <string_view>
#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
namespace absl {
namespace shim_internal {
inline std::string SixDigits(double v) {
  char buf[64];
  if (std::isnan(v)) { return "nan"; }
  if (std::isinf(v)) { return v < 0 ? "-inf" : "inf"; }
  std::snprintf(buf, sizeof(buf), "%.6g", v);
  return buf;
}
// Abseil's safe_strto*_base: strip whitespace, optional sign, digits, saturate on overflow and return false.
template <std::integral I>
bool SafeStrToInt(std::string_view s, I* out, int base) {
  *out = 0;
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (base == 16 && s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s.remove_prefix(2); }
  if (s.empty()) { return false; }
  if (neg && !std::is_signed_v<I>) { return false; }
  unsigned __int128 v = 0;
  const unsigned __int128 lim = neg ? static_cast<unsigned __int128>(std::numeric_limits<I>::max()) + 1
                                    : static_cast<unsigned __int128>(std::numeric_limits<I>::max());
  for (const char c : s) {
    int d = ascii_isdigit(c) ? c - '0' : ascii_isalpha(c) ? ascii_tolower(c) - 'a' + 10 : 99;
    if (d >= base) { *out = neg ? static_cast<I>(-static_cast<__int128>(v)) : static_cast<I>(v); return false; }
    v = v * base + d;
    if (v > lim) { *out = neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); return false; }
  }
  *out = neg ? static_cast<I>(-static_cast<__int128>(v)) : static_cast<I>(v);
  return true;
}
}  // namespace shim_internal
template <std::integral I>
[[nodiscard]] bool SimpleAtoi(std::string_view s, I* out) { return shim_internal::SafeStrToInt(s, out, 10); }
template <std::integral I>
[[nodiscard]] bool SimpleHexAtoi(std::string_view s, I* out) { return shim_internal::SafeStrToInt(s, out, 16); }
[[nodiscard]] inline bool SimpleAtod(std::string_view s, double* out) {
  const std::string t(StripAsciiWhitespace(s));
  if (t.empty()) { return false; }
  char* end = nullptr;
  *out = std::strtod(t.c_str(), &end);
  return end == t.c_str() + t.size();
}
[[nodiscard]] inline bool SimpleAtof(std::string_view s, float* out) { double d = 0; const bool ok = SimpleAtod(s, &d); *out = static_cast<float>(d); return ok; }
[[nodiscard]] inline bool SimpleAtob(std::string_view s, bool* out) {
  for (const char* t : {"true", "t", "yes", "y", "1"}) { if (EqualsIgnoreCase(s, t)) { *out = true; return true; } }
  for (const char* t : {"false", "f", "no", "n", "0"}) { if (EqualsIgnoreCase(s, t)) { *out = false; return true; } }
  return false;
}
}  // namespace absl
#endif
