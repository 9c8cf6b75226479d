#include "absl/flags/flag.h"
#include "absl/log/globals.h"
ABSL_FLAG(int, stderrthreshold, 2, "stand-in");
ABSL_FLAG(int, minloglevel, 0, "stand-in");
