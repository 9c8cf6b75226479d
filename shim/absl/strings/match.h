#ifndef SHIM_ABSL_MATCH_H_
#define SHIM_ABSL_MATCH_H_
#include <string_view>
#include "absl/strings/ascii.h"
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) noexcept { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char n) noexcept { return h.find(n) != h.npos; }
inline bool StartsWith(std::string_view t, std::string_view p) noexcept { return t.starts_with(p); }
inline bool EndsWith(std::string_view t, std::string_view p) noexcept { return t.ends_with(p); }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) noexcept {
  if (a.size() != b.size()) { return false; }
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (ascii_tolower(static_cast<unsigned char>(a[i])) != ascii_tolower(static_cast<unsigned char>(b[i]))) { return false; }
  }
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
inline bool StrContainsIgnoreCase(std::string_view h, std::string_view n) noexcept {
  for (std::size_t i = 0; i + n.size() <= h.size(); ++i) { if (EqualsIgnoreCase(h.substr(i, n.size()), n)) { return true; } }
  return false;
}
}  // namespace absl
#endif
