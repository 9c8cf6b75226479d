#ifndef SHIM_ABSL_CLEANUP_H_
#define SHIM_ABSL_CLEANUP_H_
#include <utility>
namespace absl {
template <typename F>
class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}  // NOLINT
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~Cleanup() { if (on_) { f_(); } }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; f_(); }
 private:
  F f_;
  bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}  // namespace absl
#endif
