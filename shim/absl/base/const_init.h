#ifndef SHIM_ABSL_BASE_CONST_INIT_H_
#define SHIM_ABSL_BASE_CONST_INIT_H_
namespace absl { enum ConstInitType { kConstInit }; }
#endif
