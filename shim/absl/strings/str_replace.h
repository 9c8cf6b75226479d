#ifndef SHIM_ABSL_STR_REPLACE_H_
#define SHIM_ABSL_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
namespace shim_internal {
template <typename R>
int ReplaceAll(std::string_view s, const R& reps, std::string& out) {
  // Abseil: the earliest match wins, at equal position the longest.
  int n = 0;
  std::size_t pos = 0;
  while (pos <= s.size()) {
    std::size_t best = s.npos;
    std::string_view old, with;
    for (const auto& r : reps) {
      const std::string_view o(std::get<0>(r)), w(std::get<1>(r));
      if (o.empty()) { continue; }
      const std::size_t f = s.find(o, pos);
      if (f == s.npos) { continue; }
      if (f < best || (f == best && o.size() > old.size())) { best = f; old = o; with = w; }
    }
    if (best == s.npos) { break; }
    out.append(s.substr(pos, best - pos));
    out.append(with);
    pos = best + old.size();
    ++n;
  }
  out.append(s.substr(pos));
  return n;
}
}  // namespace shim_internal
[[nodiscard]] inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> reps) {
  std::string out;
  shim_internal::ReplaceAll(s, reps, out);
  return out;
}
template <typename R>
[[nodiscard]] std::string StrReplaceAll(std::string_view s, const R& reps) {
  std::string out;
  shim_internal::ReplaceAll(s, reps, out);
  return out;
}
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> reps, std::string* target) {
  std::string out;
  const int n = shim_internal::ReplaceAll(*target, reps, out);
  *target = std::move(out);
  return n;
}
template <typename R>
int StrReplaceAll(const R& reps, std::string* target) {
  std::string out;
  const int n = shim_internal::ReplaceAll(*target, reps, out);
  *target = std::move(out);
  return n;
}
}  // namespace absl
#endif
