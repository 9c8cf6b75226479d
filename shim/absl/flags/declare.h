#ifndef SHIM_ABSL_FLAGS_DECLARE_H_
#define SHIM_ABSL_FLAGS_DECLARE_H_
namespace absl { template <typename T> class Flag; }
#define ABSL_DECLARE_FLAG(type, name) extern ::absl::Flag<type> FLAGS_##name
#endif
