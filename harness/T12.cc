// VH-VARIANT: gcc CXX=g++ OPT=-O0 -g0
// VH-VARIANT: clang CXX=clang++ OPT=-O0 -g0
// VH-RULE: random sources (0..60 elements) seen through views of every const-iterable kind of the standard library and their compositions, wrapped; each wrapped view is iterated (twice, forwards and backwards where possible), indexed and queried through const and non-const access, and compared with a fresh unwrapped view of the same source and with a plain list of its elements
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <ranges>
#include <set>
#include <span>
#include <string>
#include <vector>

#include "mbo/types/typed_view.h"
#include "vh.h"

namespace {
using mbo::types::TypedView;
namespace rv = std::views;

template <typename T>
std::string Str(const T& v) {
  if constexpr (requires { v.first; v.second; }) { return "<" + Str(v.first) + "," + Str(v.second) + ">"; }
  else if constexpr (requires { v.id; }) { return "#" + std::to_string(v.id); }
  else if constexpr (std::ranges::range<const T> && !std::is_convertible_v<const T&, std::string_view>) { std::string s = "["; for (const auto& e : v) { s += Str(e) + ";"; } return s + "]"; }
  else { return vh::Show(v); }
}

// `make` gives the view anew; `values` are its elements.
template <typename Make>
void Test(const char* name, Make&& make, const std::vector<std::string>& want) {
  using View = decltype(make());
  const std::string key = std::string("view:") + name;
  TypedView<View> tv(make());
  const TypedView<View>& ct = tv;
  View plain = make();
  using P = decltype(plain.begin());
  static_assert(std::same_as<typename TypedView<View>::value_type, std::iter_value_t<P>>);
  static_assert(std::same_as<typename TypedView<View>::reference, std::iter_reference_t<P>>);
  static_assert(std::same_as<typename TypedView<View>::difference_type, std::iter_difference_t<P>>);
  static_assert(std::ranges::range<const TypedView<View>>);
  auto list = [&](auto&& v) { std::vector<std::string> r; for (auto&& e : v) { r.push_back(Str(e)); if (r.size() > want.size() + 100) { break; } } return r; };
  auto check = [&](const std::vector<std::string>& got, const char* how) {
    vh::Eval();
    if (got != want) {
      std::string g, w;
      for (const auto& s : got) { g += s + " "; }
      for (const auto& s : want) { w += s + " "; }
      vh::Fail(key + ":" + how, "got " + g + " want " + w);
    }
  };
  check(list(plain), "unwrapped_oracle");
  check(list(tv), "iterate");
  check(list(ct), "iterate_const");
  check(list(tv), "iterate_again");
  const std::size_t n = want.size();
  if constexpr (std::ranges::forward_range<const TypedView<View>>) {
    vh::Eq(key + ":empty", tv.empty(), n == 0);
    vh::Eq(key + ":empty_const", ct.empty(), n == 0);
    vh::Eq(key + ":bool", static_cast<bool>(ct), n != 0);
    if (n != 0) {
      vh::Eq(key + ":front", Str(tv.front()), want.front());
      vh::Eq(key + ":front_const", Str(ct.front()), want.front());
      // The reference is the one of the wrapped view: the same object.
      if constexpr (std::is_lvalue_reference_v<std::iter_reference_t<P>> && std::ranges::borrowed_range<View>) { vh::Check(std::addressof(*ct.begin()) == std::addressof(*plain.begin()), key + ":identity", "the first element is another object"); }
    }
  }
  vh::Eq(key + ":distance", static_cast<std::size_t>(std::ranges::distance(ct)), n);
  if constexpr (requires { ct.size(); }) {
    vh::Eq(key + ":size", static_cast<std::size_t>(ct.size()), n);
    vh::Eq(key + ":size", static_cast<std::size_t>(tv.size()), n);
    vh::Count("sized_views");
  }
  if constexpr (std::ranges::random_access_range<const TypedView<View>>) {
    for (std::size_t i = 0; i < n; ++i) {
      using D = typename TypedView<View>::difference_type;
      vh::Eq(key + ":index", Str(ct[static_cast<D>(i)]), want[i]);
      vh::Eq(key + ":index", Str(tv[static_cast<D>(i)]), want[i]);
    }
    vh::Count("indexed_elements", 2 * n);
  }
  if constexpr (std::ranges::bidirectional_range<const TypedView<View>> && std::ranges::common_range<const TypedView<View>>) {
    std::vector<std::string> back;
    for (auto it = ct.end(); it != ct.begin();) { --it; back.push_back(Str(*it)); }
    std::reverse(back.begin(), back.end());
    check(back, "reverse");
    if (n != 0) { vh::Eq(key + ":back", Str(ct.back()), want.back()); vh::Eq(key + ":back", Str(tv.back()), want.back()); }
  }
  if constexpr (std::ranges::contiguous_range<const TypedView<View>>) { vh::Check(n == 0 || std::to_address(ct.begin()) == ct.data(), key + ":data", "data() is not the first element"); }
  vh::Eval(5);
  vh::Count("views_checked");
  vh::Count("elements_visited", 3 * n);
  std::uint64_t h = vh::HashOf(name);
  for (const auto& s : want) { h = vh::HashOf(s, h); }
  vh::Distinct(h);
  if (vh::S().samples.size() < 3 && n == 5) { vh::SampleText(std::string(name) + ": " + want[0] + " " + want[1] + " " + want[2] + " ..."); }
}
template <typename R>
std::vector<std::string> All(const R& r) { std::vector<std::string> v; for (const auto& e : r) { v.push_back(Str(e)); } return v; }

struct NoCopy { explicit NoCopy(int i) : id(i) {} NoCopy(NoCopy&&) = default; int id; };

void Case(vh::Rng& r) {
  const std::size_t n = r.Below(4) == 0 ? r.Below(3) : r.Below(61);
  std::vector<int> vec;
  for (std::size_t i = 0; i < n; ++i) { vec.push_back(static_cast<int>(r.Below(100))); }
  const std::size_t k = r.Below(n + 3), k2 = r.Below(n + 3);
  const std::vector<std::string> all = All(vec);
  auto slice = [&](const std::vector<std::string>& v, std::size_t a, std::size_t b) { a = std::min(a, v.size()); b = std::min(std::max(a, b), v.size()); return std::vector<std::string>(v.begin() + static_cast<long>(a), v.begin() + static_cast<long>(b)); };
  auto rev = [](std::vector<std::string> v) { std::reverse(v.begin(), v.end()); return v; };
  vh::Case("n=" + std::to_string(n) + " k=" + std::to_string(k));

  Test("all_vector", [&] { return rv::all(vec); }, all);
  Test("all_const_vector", [&] { return rv::all(std::as_const(vec)); }, all);
  Test("owning", [&] { return rv::all(std::vector<int>(vec)); }, all);
#ifndef __clang__  // clang cannot answer whether span is constructible from a range whose class template is still being instantiated.
  Test("span", [&] { return std::span<int>(vec); }, all);
  Test("counted", [&] { return rv::counted(vec.begin(), static_cast<long>(std::min(k, n))); }, slice(all, 0, k));
  Test("span_const", [&] { return std::span<const int>(vec); }, all);
#endif
  Test("take", [&] { return vec | rv::take(k); }, slice(all, 0, k));
  Test("drop", [&] { return std::as_const(vec) | rv::drop(k); }, slice(all, k, n));
  Test("drop_take", [&] { return vec | rv::drop(k) | rv::take(k2); }, slice(all, k, k + k2));
  Test("reverse", [&] { return vec | rv::reverse; }, rev(all));
  Test("reverse_drop", [&] { return vec | rv::drop(k) | rv::reverse; }, rev(slice(all, k, n)));
  std::vector<std::string> doubled;
  for (const int v : vec) { doubled.push_back(std::to_string(v * 2 + 1)); }
  Test("transform", [&] { return vec | rv::transform([](int v) { return v * 2 + 1; }); }, doubled);
  Test("transform_reverse_take", [&] { return vec | rv::transform([](int v) { return v * 2 + 1; }) | rv::reverse | rv::take(k); }, slice(rev(doubled), 0, k));
  std::vector<std::string> upto;
  for (const int v : vec) { if (v >= 60) { break; } upto.push_back(std::to_string(v)); }
  Test("take_while", [&] { return vec | rv::take_while([](int v) { return v < 60; }); }, upto);
  std::vector<std::string> nums;
  for (std::size_t i = k; i < k + k2; ++i) { nums.push_back(std::to_string(i)); }
  Test("iota", [&] { return rv::iota(k, k + k2); }, nums);
  Test("iota_unbounded_take", [&] { return rv::iota(k) | rv::take(k2); }, nums);
  Test("single", [&] { return rv::single(k); }, {std::to_string(k)});
  Test("empty", [] { return rv::empty<int>; }, {});
  Test("subrange", [&] { return std::ranges::subrange(vec.begin() + static_cast<long>(std::min(k, n)), vec.end()); }, slice(all, k, n));

  const std::string text = r.Text("ab c", n);
  std::vector<std::string> chars;
  for (const char c : text) { chars.push_back(Str(c)); }
  Test("string_view", [&] { return std::string_view(text); }, chars);
  Test("string_view_reverse", [&] { return std::string_view(text) | rv::reverse; }, rev(chars));

  std::map<int, std::string> map;
  for (const int v : vec) { map[v] += std::to_string(k); }
  std::vector<std::string> keys, values, pairs;
  for (const auto& [a, b] : map) { keys.push_back(Str(a)); values.push_back(Str(b)); pairs.push_back(Str(std::pair<int, std::string>(a, b))); }
  Test("map_all", [&] { return rv::all(map); }, pairs);
  Test("map_keys", [&] { return map | rv::keys; }, keys);
  Test("map_values", [&] { return map | rv::values; }, values);
  Test("map_keys_reverse", [&] { return std::as_const(map) | rv::keys | rv::reverse; }, rev(keys));
  const std::list<int> list(vec.begin(), vec.end());
  Test("list", [&] { return rv::all(list); }, all);
  Test("list_reverse", [&] { return list | rv::reverse; }, rev(all));
  const std::forward_list<int> fl(vec.begin(), vec.end());
  Test("forward_list", [&] { return rv::all(fl); }, all);
  const std::deque<int> dq(vec.begin(), vec.end());
  Test("deque_drop", [&] { return dq | rv::drop(k); }, slice(all, k, n));
  const std::set<int> set(vec.begin(), vec.end());
  Test("set", [&] { return rv::all(set); }, All(set));
  std::vector<bool> bits;
  std::vector<std::string> bit_text;
  for (const int v : vec) { bits.push_back(v % 2 != 0); bit_text.push_back(v % 2 != 0 ? "true" : "false"); }
  Test("vector_bool", [&] { return rv::all(std::as_const(bits)); }, bit_text);
  std::vector<NoCopy> nc;
  std::vector<std::string> ids;
  for (const int v : vec) { nc.emplace_back(v); ids.push_back("#" + std::to_string(v)); }
  Test("non_copyable", [&] { return rv::all(nc); }, ids);
  Test("owning_non_copyable", [&] { std::vector<NoCopy> own; for (const int v : vec) { own.emplace_back(v); } return rv::all(std::move(own)); }, ids);
  const std::array<int, 3> arr{1, 2, 3};
  Test("array", [&] { return rv::all(arr); }, {"1", "2", "3"});

  // Writing through a wrapped view reaches the source.
  if (n != 0) {
    TypedView tv(rv::all(vec));
    const std::size_t at = r.Below(n);
    tv[static_cast<long>(at)] = 12345;
    vh::Eq("write", vec[at], 12345);
    tv.front() = 54321;
    vh::Eq("write_front", vec[0], 54321);
    // Copying and moving a wrapped view keeps the elements.
    auto copy = tv;
    vh::Check(std::ranges::equal(copy, vec), "copy", "a copied view has other elements");
    auto moved = std::move(copy);
    vh::Check(std::ranges::equal(moved, vec), "move", "a moved view has other elements");
    // It composes: standard algorithms and adaptors accept it.
    vh::Eq("compose", static_cast<std::size_t>(std::ranges::distance(moved | rv::filter([](int v) { return v >= 0; }))), n);
    vh::Eval(5);
  }
}
}  // namespace

void VhMain() {
  vh::Section("views", 900, 20000, [](vh::Rng& r, std::uint64_t) { Case(r); });
}
