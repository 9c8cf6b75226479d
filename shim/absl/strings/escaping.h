#ifndef SHIM_ABSL_ESCAPING_H_
#define SHIM_ABSL_ESCAPING_H_
#include <string>
#include <string_view>
#include "absl/strings/str_cat.h"
#include "absl/strings/ascii.h"
namespace absl {
namespace shim_internal {
inline std::string CEsc(std::string_view src, bool use_hex, bool utf8_safe) {
  std::string dest;
  bool last_hex = false;
  for (const char ch : src) {
    const unsigned char c = static_cast<unsigned char>(ch);
    bool is_hex = false;
    switch (c) {
      case '\n': dest += "\\n"; break;
      case '\r': dest += "\\r"; break;
      case '\t': dest += "\\t"; break;
      case '\"': dest += "\\\""; break;
      case '\'': dest += "\\'"; break;
      case '\\': dest += "\\\\"; break;
      default:
        if ((!utf8_safe || c < 0x80) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) {
          static constexpr char kHex[] = "0123456789abcdef";
          dest += '\\';
          if (use_hex) {
            dest += 'x';
            dest += kHex[c >> 4];
            dest += kHex[c & 15];
            is_hex = true;
          } else {
            dest += static_cast<char>('0' + c / 64);
            dest += static_cast<char>('0' + (c % 64) / 8);
            dest += static_cast<char>('0' + c % 8);
          }
        } else {
          dest += ch;
        }
    }
    last_hex = is_hex;
  }
  return dest;
}
}  // namespace shim_internal
[[nodiscard]] inline std::string CEscape(std::string_view s) { return shim_internal::CEsc(s, false, false); }
[[nodiscard]] inline std::string CHexEscape(std::string_view s) { return shim_internal::CEsc(s, true, false); }
[[nodiscard]] inline std::string Utf8SafeCEscape(std::string_view s) { return shim_internal::CEsc(s, false, true); }
[[nodiscard]] inline std::string Utf8SafeCHexEscape(std::string_view s) { return shim_internal::CEsc(s, true, true); }
[[nodiscard]] inline std::string BytesToHexString(std::string_view s) {
  static constexpr char kHex[] = "0123456789abcdef";
  std::string r;
  for (const char ch : s) { const unsigned char c = ch; r += kHex[c >> 4]; r += kHex[c & 15]; }
  return r;
}
}  // namespace absl
#endif
