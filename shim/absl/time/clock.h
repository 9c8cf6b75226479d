#ifndef SHIM_ABSL_CLOCK_H_
#define SHIM_ABSL_CLOCK_H_
#include <thread>
#include "absl/time/time.h"
namespace absl {
inline Time Now() { return FromChrono(std::chrono::system_clock::now()); }
inline int64_t GetCurrentTimeNanos() { return ToUnixNanos(Now()); }
inline void SleepFor(Duration d) { std::this_thread::sleep_for(ToChronoNanoseconds(d)); }
}  // namespace absl
#endif
