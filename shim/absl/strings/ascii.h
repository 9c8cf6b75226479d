#ifndef SHIM_ABSL_ASCII_H_
#define SHIM_ABSL_ASCII_H_
#include <string>
#include <string_view>
#include <algorithm>
namespace absl {
constexpr bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
constexpr bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
constexpr bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
constexpr bool ascii_isalpha(unsigned char c) { return ascii_isupper(c) || ascii_islower(c); }
constexpr bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
constexpr bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
constexpr bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
constexpr bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
constexpr bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
constexpr bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
constexpr bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
constexpr bool ascii_ispunct(unsigned char c) { return ascii_isgraph(c) && !ascii_isalnum(c); }
constexpr bool ascii_isascii(unsigned char c) { return c < 128; }
constexpr char ascii_tolower(unsigned char c) { return static_cast<char>(ascii_isupper(c) ? c + 32 : c); }
constexpr char ascii_toupper(unsigned char c) { return static_cast<char>(ascii_islower(c) ? c - 32 : c); }
inline void AsciiStrToLower(std::string* s) { for (char& c : *s) { c = ascii_tolower(static_cast<unsigned char>(c)); } }
[[nodiscard]] inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); AsciiStrToLower(&r); return r; }
inline void AsciiStrToUpper(std::string* s) { for (char& c : *s) { c = ascii_toupper(static_cast<unsigned char>(c)); } }
[[nodiscard]] inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); AsciiStrToUpper(&r); return r; }
[[nodiscard]] inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(static_cast<unsigned char>(s.front()))) { s.remove_prefix(1); }
  return s;
}
[[nodiscard]] inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) {
  while (!s.empty() && ascii_isspace(static_cast<unsigned char>(s.back()))) { s.remove_suffix(1); }
  return s;
}
[[nodiscard]] inline std::string_view StripAsciiWhitespace(std::string_view s) {
  return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s));
}
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(std::string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(std::string_view(*s))); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(std::string_view(*s))); }
// As abseil: strip both ends, and keep only the last character of each whitespace run.
inline void RemoveExtraAsciiWhitespace(std::string* str) {
  const std::string_view s = StripAsciiWhitespace(std::string_view(*str));
  std::string out;
  bool is_ws = false;
  for (const char c : s) {
    const bool ws = ascii_isspace(static_cast<unsigned char>(c));
    if (is_ws && ws) { out.pop_back(); }
    is_ws = ws;
    out.push_back(c);
  }
  *str = std::move(out);
}
}  // namespace absl
#endif
