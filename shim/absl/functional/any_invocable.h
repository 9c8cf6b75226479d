#include "absl/functional/function_ref.h"
