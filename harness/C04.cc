// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++ SAN=none
// VH-VARIANT: clang CXX=clang++
// VH-RULE: for 14 capacities (0 to 70, on both sides of each switch of strategy) and the lookup options (default, not optimized, custom search, both, sorted input) with five comparators, random contents (empty, partial, full) are probed with every key of the domain, and index_of, find, contains, count, bounds, equal_range, at and the queries of several keys are compared with a plain scan of the sorted content. A case is one content with all probes.
#include <compare>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "vh.h"

namespace {
using mbo::container::LimitedMap;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
using mbo::container::LimitedSet;
constexpr auto kNoOpt = LimitedOptionsFlag::kNoOptimizeIndexOf;
constexpr auto kCustom = LimitedOptionsFlag::kCustomIndexOfBeyondUnroll;
constexpr auto kSorted = LimitedOptionsFlag::kRequireSortedInput;

template <typename K> K Key(int c) {
  if constexpr (std::is_same_v<K, std::string>) { std::string s = std::to_string(c); s.insert(0, 3 - s.size(), '0'); return s; }
  else { return K(c); }
}
// Compares tens only, up or down.
struct Tens {
  bool down = false;
  bool operator()(int a, int b) const noexcept { return down ? b / 4 < a / 4 : a / 4 < b / 4; }
};

template <typename K, auto kOpt, typename C> void Probe(vh::Rng& r, const char* name) {
  using S = LimitedSet<K, kOpt, C>;
  using M = LimitedMap<K, int, kOpt, C>;
  constexpr std::size_t kN = mbo::container::MakeLimitedOptions<kOpt>().kCapacity;
  constexpr int kDomain = static_cast<int>(2 * kN + 5);
  C less{};
  if constexpr (requires { less.down; }) { less.down = r.Coin(); }
  // The content: distinct under the comparator, in its order.
  std::vector<int> codes;
  for (int c = 0; c < kDomain; ++c) { codes.push_back(c); }
  r.Shuffle(codes);
  const std::size_t n = r.Chance(1, 3) ? kN : r.Below(kN + 1);
  std::vector<K> keys;
  for (const int c : codes) {
    if (keys.size() == n) { break; }
    const K k = Key<K>(c);
    bool dup = false;
    for (const K& o : keys) { dup = dup || (!less(k, o) && !less(o, k)); }
    if (!dup) { keys.push_back(k); }
  }
  std::vector<K> sorted = keys;
  std::sort(sorted.begin(), sorted.end(), less);
  std::string ctx = std::string(name) + "<" + std::to_string(kN) + "> " + std::to_string(keys.size()) + " keys:";
  for (const K& k : sorted) { if constexpr (std::is_same_v<K, std::string>) { ctx += " " + k; } else { ctx += " " + std::to_string(k); } }
  vh::Case(ctx);
  const std::string key = std::string("lookup:") + name;
  S s(less);
  M m(less);
  if (r.Coin()) { s = S(sorted.begin(), sorted.end(), less); } else { for (const K& k : keys) { s.insert(k); } }
  for (std::size_t i = 0; i < keys.size(); ++i) { m.emplace(keys[i], static_cast<int>(i)); }
  const S& cs = s;
  const M& cm = m;
  if (cs.size() != sorted.size() || cm.size() != sorted.size()) { vh::Fail(key + ":size", ctx); return; }
  for (std::size_t i = 0; i < sorted.size(); ++i) { vh::Check(cs.at_index(i) == sorted[i] && cm.at_index(i).first == sorted[i], key + ":content", ctx); }
  std::uint64_t hits = 0;
  for (int c = -1; c <= kDomain; ++c) {
    if (std::is_same_v<K, std::string> && c < 0) { continue; }
    const K k = Key<K>(c);
    std::size_t lower = 0, upper = 0;
    while (lower < sorted.size() && less(sorted[lower], k)) { ++lower; }
    upper = lower;
    while (upper < sorted.size() && !less(k, sorted[upper])) { ++upper; }
    const bool in = upper != lower;
    hits += in ? 1 : 0;
    const std::size_t find = in ? lower : sorted.size();
    const auto probe = [&](auto& set, const auto& q, const char* what) {
      const auto at = [&](auto it) { return static_cast<std::size_t>(it - set.begin()); };
      const auto range = set.equal_range(q);
      vh::Check(set.index_of(q) == (in ? lower : S::npos), key + ":index_of" + what, [&] { return ctx + " probe " + std::to_string(c) + " gives " + std::to_string(set.index_of(q)); });
      vh::Check(at(set.find(q)) == find, key + ":find" + what, [&] { return ctx + " probe " + std::to_string(c) + " gives " + std::to_string(at(set.find(q))); });
      vh::Check(set.contains(q) == in && set.count(q) == (in ? 1U : 0U), key + ":contains" + what, [&] { return ctx + " probe " + std::to_string(c); });
      vh::Check(at(set.lower_bound(q)) == lower && at(set.upper_bound(q)) == upper && at(range.first) == lower && at(range.second) == upper, key + ":bounds" + what, [&] { return ctx + " probe " + std::to_string(c); });
    };
    probe(s, k, ""); probe(cs, k, ""); probe(m, k, "_map"); probe(cm, k, "_map");
    if (in) { vh::Check(&cm.at(k) == &cm.at_index(lower).second && &m.at(k) == &cm.at(k), key + ":at", ctx); }
    if constexpr (requires { typename C::is_transparent; }) {
      if constexpr (std::is_same_v<K, std::string>) { const std::string_view q = k; probe(cs, q, "_foreign"); probe(cm, q, "_foreign"); if (in) { vh::Check(&cm.at(q) == &cm.at(k), key + ":at_foreign", ctx); } }
      else { const long q = c; probe(cs, q, "_foreign"); probe(cm, q, "_foreign"); }
    }
  }
  for (int t = 0; t < 3; ++t) {
    std::vector<K> some;
    bool all = true, any = false;
    for (std::size_t i = r.Below(4); i > 0; --i) {
      some.push_back(r.Chance(2, 3) && !sorted.empty() ? sorted[r.Below(sorted.size())] : Key<K>(static_cast<int>(r.Below(static_cast<std::uint64_t>(kDomain)))));
      bool in = false;
      for (const K& o : sorted) { in = in || (!less(o, some.back()) && !less(some.back(), o)); }
      all = all && in; any = any || in;
    }
    vh::Check(cs.contains_all(some) == all && cm.contains_all(some) == all, key + ":contains_all", ctx);
    vh::Check(cs.contains_any(some) == any && cm.contains_any(some) == any, key + ":contains_any", ctx);
  }
  vh::Count("probes", static_cast<std::uint64_t>(kDomain) + 2);
  vh::Count("hits", hits);
  vh::Eval(static_cast<std::uint64_t>(kDomain) + 2);
  vh::Distinct(vh::HashAll(ctx));
}
using Fn = void (*)(vh::Rng&, const char*);
struct Entry { Fn fn; const char* name; };
template <std::size_t N, LimitedOptionsFlag... F> constexpr auto kO = LimitedOptions<N, F...>{};
const std::vector<Entry>& Entries() {
  using CL = mbo::types::CompareLess<int>;
  using CS = mbo::types::CompareLess<std::string>;
  static const std::vector<Entry> all = {
      // The unrolled search, and its edges.
      {Probe<int, 0, std::less<int>>, "default"}, {Probe<int, 1, CL>, "compare_less"}, {Probe<int, 2, std::less<int>>, "default"}, {Probe<int, 3, CL>, "compare_less"},
      {Probe<int, 4, std::less<>>, "transparent"}, {Probe<int, 5, Tens>, "classes"}, {Probe<int, 9, CL>, "compare_less"}, {Probe<std::string, 15, CS>, "compare_less_string"},
      {Probe<int, 16, CL>, "compare_less"}, {Probe<int, 16, std::less<int>>, "default"}, {Probe<int, 17, CL>, "compare_less"}, {Probe<int, 17, Tens>, "classes"},
      {Probe<int, 16, std::greater<int>>, "greater"},
      // The plain search.
      {Probe<int, kO<0, kNoOpt>, CL>, "plain"}, {Probe<int, kO<8, kNoOpt>, std::less<>>, "plain"}, {Probe<int, kO<33, kNoOpt>, std::less<int>>, "plain"}, {Probe<std::string, kO<12, kNoOpt, kCustom>, CS>, "plain_string"},
      // The custom search beyond the unrolled one.
      {Probe<int, kO<7, kCustom>, CL>, "custom"}, {Probe<int, kO<17, kCustom>, CL>, "custom"}, {Probe<int, kO<17, kCustom>, std::less<int>>, "custom_less"}, {Probe<int, kO<32, kCustom>, Tens>, "custom_classes"},
      {Probe<int, kO<33, kCustom>, std::greater<int>>, "custom_greater"}, {Probe<std::string, kO<40, kCustom>, std::less<>>, "custom_string"}, {Probe<std::string, kO<70, kCustom>, CS>, "custom_string"},
      // Sorted input.
      {Probe<int, kO<6, kSorted>, CL>, "sorted"}, {Probe<int, kO<24, kSorted>, Tens>, "sorted_classes"}, {Probe<int, kO<64, kSorted, kCustom>, std::less<int>>, "sorted_custom"},
      {Probe<int, 64, std::less<int>>, "default"},
  };
  return all;
}
}  // namespace

void VhMain() {
  vh::Section("lookups", 1400, 90000, [](vh::Rng& r, std::uint64_t i) { const Entry& e = Entries()[i % Entries().size()]; e.fn(r, e.name); });
}
