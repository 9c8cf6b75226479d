#ifndef SHIM_ABSL_USAGE_H_
#define SHIM_ABSL_USAGE_H_
#include <string>
#include <string_view>
namespace absl {
namespace flags_internal { inline std::string& Usage() { static auto* u = new std::string; return *u; } }
inline void SetProgramUsageMessage(std::string_view s) { flags_internal::Usage() = s; }
inline std::string_view ProgramUsageMessage() { return flags_internal::Usage(); }
}  // namespace absl
#endif
