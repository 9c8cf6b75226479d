#ifndef SHIM_ABSL_STRIP_H_
#define SHIM_ABSL_STRIP_H_
#include <string_view>
#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
namespace absl {
constexpr bool ConsumePrefix(std::string_view* s, std::string_view p) {
  if (!s->starts_with(p)) { return false; }
  s->remove_prefix(p.size());
  return true;
}
constexpr bool ConsumeSuffix(std::string_view* s, std::string_view p) {
  if (!s->ends_with(p)) { return false; }
  s->remove_suffix(p.size());
  return true;
}
[[nodiscard]] constexpr std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
[[nodiscard]] constexpr std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
}  // namespace absl
#endif
