#ifndef SHIM_ABSL_CHECK_H_
#define SHIM_ABSL_CHECK_H_
#include "absl/log/log_internal_shim.h"
#define CHECK(c) SHIM_CHECK(c, #c)
#define QCHECK(c) SHIM_CHECK(c, #c)
#define PCHECK(c) SHIM_CHECK(c, #c)
#define CHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define CHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define CHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define CHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define CHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define CHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#define QCHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define QCHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define QCHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define QCHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define QCHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define QCHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#define CHECK_OK(s) SHIM_CHECK_OK(s, #s)
#define QCHECK_OK(s) SHIM_CHECK_OK(s, #s)
#ifndef NDEBUG
#define DCHECK(c) SHIM_CHECK(c, #c)
#define DCHECK_EQ(a, b) SHIM_CHECK_OP(==, a, b, #a " == " #b)
#define DCHECK_NE(a, b) SHIM_CHECK_OP(!=, a, b, #a " != " #b)
#define DCHECK_LT(a, b) SHIM_CHECK_OP(<, a, b, #a " < " #b)
#define DCHECK_LE(a, b) SHIM_CHECK_OP(<=, a, b, #a " <= " #b)
#define DCHECK_GT(a, b) SHIM_CHECK_OP(>, a, b, #a " > " #b)
#define DCHECK_GE(a, b) SHIM_CHECK_OP(>=, a, b, #a " >= " #b)
#else
#define DCHECK(c) SHIM_CHECK(true || (c), #c)
#define DCHECK_EQ(a, b) SHIM_CHECK(true || ((a) == (b)), #a)
#define DCHECK_NE(a, b) SHIM_CHECK(true || ((a) != (b)), #a)
#define DCHECK_LT(a, b) SHIM_CHECK(true || ((a) < (b)), #a)
#define DCHECK_LE(a, b) SHIM_CHECK(true || ((a) <= (b)), #a)
#define DCHECK_GT(a, b) SHIM_CHECK(true || ((a) > (b)), #a)
#define DCHECK_GE(a, b) SHIM_CHECK(true || ((a) >= (b)), #a)
#endif
#endif
