#ifndef SHIM_ABSL_BASE_ATTRIBUTES_H_
#define SHIM_ABSL_BASE_ATTRIBUTES_H_
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_ATTRIBUTE_COLD
#define ABSL_ATTRIBUTE_HOT
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_WEAK __attribute__((weak))
#define ABSL_CONST_INIT constinit
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_DEPRECATED(x)
#define ABSL_PREDICT_TRUE(x) (__builtin_expect(false || (x), true))
#define ABSL_PREDICT_FALSE(x) (__builtin_expect(false || (x), false))
#define ABSL_ASSERT(x) static_cast<void>(0)
#define ABSL_NAMESPACE_BEGIN
#define ABSL_NAMESPACE_END
#endif
