#ifndef SHIM_ABSL_ABSL_CHECK_H_
#define SHIM_ABSL_ABSL_CHECK_H_
#include "absl/log/log_internal_shim.h"
#define ABSL_CHECK(c) SHIM_CHECK(c, #c)
#define ABSL_QCHECK(c) SHIM_CHECK(c, #c)
#define ABSL_PCHECK(c) SHIM_CHECK(c, #c)
#define ABSL_CHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define ABSL_CHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define ABSL_CHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define ABSL_CHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define ABSL_CHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define ABSL_CHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#define ABSL_QCHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define ABSL_QCHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define ABSL_QCHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define ABSL_QCHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define ABSL_QCHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define ABSL_QCHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#define ABSL_CHECK_OK(s) SHIM_CHECK_OK(s, #s)
#define ABSL_QCHECK_OK(s) SHIM_CHECK_OK(s, #s)
#ifndef NDEBUG
#define ABSL_DCHECK(c) SHIM_CHECK(c, #c)
#define ABSL_DCHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define ABSL_DCHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define ABSL_DCHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define ABSL_DCHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define ABSL_DCHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define ABSL_DCHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#else
#define ABSL_DCHECK(c) SHIM_CHECK(true || (c), #c)
#define ABSL_DCHECK_EQ(a, b) SHIM_CHECK(true || ((a) == (b)), #a)
#define ABSL_DCHECK_NE(a, b) SHIM_CHECK(true || ((a) != (b)), #a)
#define ABSL_DCHECK_LT(a, b) SHIM_CHECK(true || ((a) < (b)), #a)
#define ABSL_DCHECK_LE(a, b) SHIM_CHECK(true || ((a) <= (b)), #a)
#define ABSL_DCHECK_GT(a, b) SHIM_CHECK(true || ((a) > (b)), #a)
#define ABSL_DCHECK_GE(a, b) SHIM_CHECK(true || ((a) >= (b)), #a)
#endif
#endif
