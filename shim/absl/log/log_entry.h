#include "absl/log/log_internal_shim.h"
