#ifndef SHIM_ABSL_REFLECTION_H_
#define SHIM_ABSL_REFLECTION_H_
#include "absl/flags/flag.h"
namespace absl {
inline CommandLineFlag* FindCommandLineFlag(std::string_view name) {
  auto& r = flags_internal::Registry();
  const auto it = r.find(name);
  return it == r.end() ? nullptr : it->second;
}
}  // namespace absl
#endif
