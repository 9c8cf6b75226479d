#ifndef SHIM_ABSL_STR_JOIN_H_
#define SHIM_ABSL_STR_JOIN_H_
#include <initializer_list>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
struct AlphaNumFormatterImpl {
  template <typename T>
  void operator()(std::string* out, const T& v) const { StrAppend(out, v); }
};
struct StreamFormatterImpl {
  template <typename T>
  void operator()(std::string* out, const T& v) const { std::ostringstream os; os << v; out->append(os.str()); }
};
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
inline StreamFormatterImpl StreamFormatter() { return {}; }
template <typename F1, typename F2>
struct PairFormatterImpl {
  F1 f1; std::string sep; F2 f2;
  template <typename T>
  void operator()(std::string* out, const T& p) { f1(out, p.first); out->append(sep); f2(out, p.second); }
};
template <typename F1, typename F2>
auto PairFormatter(F1 f1, std::string_view sep, F2 f2) { return PairFormatterImpl<F1, F2>{f1, std::string(sep), f2}; }
inline auto PairFormatter(std::string_view sep) { return PairFormatter(AlphaNumFormatter(), sep, AlphaNumFormatter()); }
template <typename It, typename F>
  requires(std::input_iterator<It>)
std::string StrJoin(It first, It last, std::string_view sep, F&& fmt) {
  std::string r;
  bool any = false;
  for (; first != last; ++first) {
    if (any) { r.append(sep); }
    any = true;
    auto&& v = *first;
    fmt(&r, v);
  }
  return r;
}
template <typename It>
  requires(std::input_iterator<It>)
std::string StrJoin(It first, It last, std::string_view sep) { return StrJoin(first, last, sep, AlphaNumFormatterImpl()); }
template <typename R, typename F>
  requires(requires(const R& r) { std::begin(r); std::end(r); })
std::string StrJoin(const R& range, std::string_view sep, F&& fmt) {
  using std::begin; using std::end;
  std::string r;
  bool any = false;
  for (auto it = begin(range); it != end(range); ++it) {
    if (any) { r.append(sep); }
    any = true;
    auto&& v = *it;
    fmt(&r, v);
  }
  return r;
}
template <typename R>
  requires(requires(const R& r) { std::begin(r); std::end(r); })
std::string StrJoin(const R& range, std::string_view sep) { return StrJoin(range, sep, AlphaNumFormatterImpl()); }
template <typename T>
std::string StrJoin(std::initializer_list<T> l, std::string_view sep) { return StrJoin(l.begin(), l.end(), sep); }
template <typename T, typename F>
std::string StrJoin(std::initializer_list<T> l, std::string_view sep, F&& f) { return StrJoin(l.begin(), l.end(), sep, f); }
template <typename... T>
std::string StrJoin(const std::tuple<T...>& t, std::string_view sep) {
  std::string r;
  bool any = false;
  std::apply([&](const auto&... v) { ((any ? (void)r.append(sep) : (void)0, any = true, StrAppend(&r, v)), ...); }, t);
  return r;
}
}  // namespace absl
#endif
