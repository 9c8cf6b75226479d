// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: every operation of limited sets and maps made to exceed the capacity, or to use a position or key that is not there, in a child process, which must stop by the requirement and not write out of bounds; every way of making a set or map; lookups, erasure and queries of several keys with foreign key types. A case is one excess, one set of makers or one content with probes.
#include <array>
#include <list>

#include "limord.h"

namespace {
using lo::LimitedMap;
using lo::LimitedOptions;
using lo::LimitedOptionsFlag;
using lo::LimitedSet;
using mbo::container::MakeLimitedMap;
using mbo::container::MakeLimitedSet;
using mbo::container::MakeLimitedSetOf;
using mbo::container::ToLimitedMap;
using mbo::container::ToLimitedSet;
using S = LimitedSet<std::string, 3>;
using M = LimitedMap<std::string, std::string, 3>;
using Sorted = LimitedSet<std::string, LimitedOptions<3, LimitedOptionsFlag::kRequireSortedInput>{}>;
using SortedMap = LimitedMap<std::string, std::string, LimitedOptions<3, LimitedOptionsFlag::kRequireSortedInput>{}>;
std::string K(std::size_t n) { return std::string(20, 'k') + std::to_string(100 + n); }
template <typename T> struct Guarded {
  std::uint64_t before[4] = {0x1111, 0x2222, 0x3333, 0x4444};
  T v;
  std::uint64_t after[4] = {0x5555, 0x6666, 0x7777, 0x8888};
  bool Ok() const { return before[0] == 0x1111 && before[3] == 0x4444 && after[0] == 0x5555 && after[3] == 0x8888; }
};
using SetFn = void (*)(S&, std::size_t);
using MapFn = void (*)(M&, std::size_t);
const std::vector<std::pair<const char*, SetFn>>& SetExcesses() {
  static const std::vector<std::pair<const char*, SetFn>> all = {
      {"insert", [](S& s, std::size_t k) { for (;; ++k) { const std::string v = K(k); s.insert(v); } }},
      {"insert_moved", [](S& s, std::size_t k) { for (;; ++k) { s.insert(K(k)); } }},
      {"emplace", [](S& s, std::size_t k) { for (;; ++k) { s.emplace(K(900 - k)); } }},
      {"insert_range", [](S& s, std::size_t k) { const std::vector<std::string> v{K(k), K(k + 3), K(k + 1), K(k + 2)}; s.insert(v.begin(), v.end()); }},
      {"construct_list", [](S& s, std::size_t k) { S t{K(k), K(k + 1), K(k + 9), K(k + 4)}; s.swap(t); }},
      {"construct_range", [](S& s, std::size_t k) { const std::list<std::string> v{K(k), K(k + 1), K(k + 2), K(k + 3)}; S t(v.begin(), v.end()); s.swap(t); }},
      {"construct_sorted", [](S&, std::size_t k) { const std::vector<std::string> v{K(k), K(k + 1), K(k + 2), K(k + 3), K(k + 4)}; Guarded<S> g; { Sorted t(v.begin(), v.end()); g.v.insert(t.at_index(0)); } _exit(44); }},
      {"construct_unsorted", [](S&, std::size_t k) { const std::vector<std::string> v{K(k + 1), K(k)}; Sorted t(v.begin(), v.end()); _exit(45); }},
      {"at_index", [](S& s, std::size_t k) { if (s.at_index(s.size() + k) == "x") { _exit(46); } }},
      {"const_at_index", [](S& s, std::size_t k) { const S& c = s; if (c.at_index(c.size() + k) == "x") { _exit(46); } }},
      {"erase_end", [](S& s, std::size_t) { s.erase(s.end()); }},
      {"erase_const_end", [](S& s, std::size_t) { s.erase(s.cend()); }},
      {"erase_before", [](S& s, std::size_t) { s.erase(s.begin() - 1); }},
      {"erase_beyond", [](S& s, std::size_t) { s.erase(s.cbegin(), s.cend() + 1); }},
      {"erase_reversed", [](S& s, std::size_t k) { s.clear(); s.emplace(K(k)); s.erase(s.cend(), s.cbegin()); }},
  };
  return all;
}
const std::vector<std::pair<const char*, MapFn>>& MapExcesses() {
  static const std::vector<std::pair<const char*, MapFn>> all = {
      {"subscript", [](M& m, std::size_t k) { for (;; ++k) { const std::string v = K(k); m[v] = "1"; } }},
      {"subscript_moved", [](M& m, std::size_t k) { for (;; ++k) { m[K(k)] = "1"; } }},
      {"try_emplace", [](M& m, std::size_t k) { for (;; ++k) { const std::string v = K(k); m.try_emplace(v, "1"); } }},
      {"try_emplace_moved", [](M& m, std::size_t k) { for (;; ++k) { m.try_emplace(K(900 - k), "1"); } }},
      {"insert_or_assign", [](M& m, std::size_t k) { for (;; ++k) { const std::string v = K(k); m.insert_or_assign(v, "1"); } }},
      {"insert_or_assign_moved", [](M& m, std::size_t k) { for (;; ++k) { m.insert_or_assign(K(900 - k), "1"); } }},
      {"insert", [](M& m, std::size_t k) { for (;; ++k) { m.insert({K(k), "1"}); } }},
      {"emplace", [](M& m, std::size_t k) { for (;; ++k) { m.emplace(K(k), "1"); } }},
      {"at", [](M& m, std::size_t) { if (m.at("nothing") == "x") { _exit(46); } }},
      {"const_at", [](M& m, std::size_t) { const M& c = m; if (c.at("nothing") == "x") { _exit(46); } }},
      {"construct_list", [](M& m, std::size_t k) { M t{{K(k), "1"}, {K(k + 1), "2"}, {K(k + 9), "3"}, {K(k + 4), "4"}}; m.swap(t); }},
      {"construct_range", [](M& m, std::size_t k) { const std::list<std::pair<std::string, std::string>> v{{K(k), "1"}, {K(k + 1), "2"}, {K(k + 2), "3"}, {K(k + 3), "4"}}; M t(v.begin(), v.end()); m.swap(t); }},
      {"construct_sorted", [](M&, std::size_t k) { const std::vector<std::pair<std::string, std::string>> v{{K(k), "1"}, {K(k + 1), "2"}, {K(k + 2), "3"}, {K(k + 3), "4"}}; SortedMap t(v.begin(), v.end()); _exit(44); }},
      {"construct_unsorted", [](M&, std::size_t k) { const std::vector<std::pair<std::string, std::string>> v{{K(k + 1), "1"}, {K(k), "2"}}; SortedMap t(v.begin(), v.end()); _exit(45); }},
      {"construct_last_unsorted", [](M&, std::size_t k) { const std::vector<std::pair<std::string, std::string>> v{{K(k), "3"}, {K(k + 2), "2"}, {K(k + 1), "9"}}; SortedMap t(v.begin(), v.end()); _exit(45); }},
      {"at_index", [](M& m, std::size_t k) { if (m.at_index(m.size() + k).second == "x") { _exit(46); } }},
      {"erase_end", [](M& m, std::size_t) { m.erase(m.end()); }},
      {"erase_beyond", [](M& m, std::size_t) { m.erase(m.cbegin(), m.cend() + 1); }},
  };
  return all;
}
template <typename T, typename All> void Excess(vh::Rng& r, std::uint64_t i, const char* kind, const All& all) {
  static int endless = 0;
  if (endless >= 2) { return; }  // Already reported; each costs a time limit.
  const auto& [name, f] = all[i % all.size()];
  const std::size_t fill = r.Below(4), k = 10 + r.Below(50);
  const std::string ctx = std::string(kind) + "." + name + " with " + std::to_string(fill) + " elements, " + std::to_string(k);
  vh::Case(ctx);
  const auto c = vh::RunChild([&f = f, fill, k] {
    Guarded<T> g;
    for (std::size_t n = 0; n < fill; ++n) { if constexpr (std::is_same_v<T, S>) { g.v.emplace(K(n)); } else { g.v.emplace(K(n), K(n)); } }
    f(g.v, k);
    _exit(g.Ok() ? 42 : 43);
  }, 20);
  endless += c.timed_out ? 1 : 0;
  vh::Check(c.Stopped(), std::string("excess:") + kind + "." + name, [&] { return ctx + ": exit " + std::to_string(c.code) + " signal " + std::to_string(c.sig) + " " + c.err.substr(0, 600); });
  vh::Count("excesses");
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}
template <typename X> std::string All(const X& c) {
  std::string s;
  for (const auto& v : c) { if constexpr (requires { v.first; }) { s += std::to_string(lo::Code(v.first)) + "=" + std::to_string(lo::Code(v.second)) + ","; } else { s += std::to_string(lo::Code(v)) + ","; } }
  return s;
}
void Makers(vh::Rng& r) {
  const int a = static_cast<int>(r.Below(40)), b = static_cast<int>(r.Below(40)), c = static_cast<int>(r.Below(40));
  const std::string ctx = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c);
  vh::Case("make " + ctx);
  std::string s = lo::Make<std::string>(a), t = lo::Make<std::string>(b);
  const std::string three = All(std::set<int>{a, b, c}), down = All(std::set<int, std::greater<>>{a, b, c}), two = All(std::set<std::string>{s, t});
  using P = std::pair<int, std::string>;
  const std::string pairs = All(std::map<int, std::string>{{a, s}, {b, t}});
  { auto v = MakeLimitedSet(a, b, c); vh::Eq("make:args", All(v), three, ctx); vh::Eq("make:capacity", v.capacity(), 3U, ctx); }
  { auto v = MakeLimitedSet(a, static_cast<long>(b), static_cast<short>(c)); vh::Eq("make:args_mixed", All(v), three, ctx); }
  { auto v = MakeLimitedSet(s, t); vh::Eq("make:lvalues", All(v), two, ctx); vh::Check(lo::Code(s) == a && lo::Code(t) == b, "make:lvalues_left", ctx); }
  { auto v = MakeLimitedSet(std::string(s), t); vh::Eq("make:mixed", All(v), two, ctx); vh::Check(lo::Code(t) == b, "make:lvalues_left", ctx); }
  { auto v = MakeLimitedSetOf<std::string>(s, std::string_view(t)); vh::Eq("make:set_of", All(v), two, ctx); vh::Check(lo::Code(s) == a, "make:lvalues_left", ctx); }
  { auto v = MakeLimitedSet<5>({a, b, c}); vh::Eq("make:list", All(v), three, ctx); vh::Eq("make:capacity", v.capacity(), 5U, ctx); }
  { auto v = MakeLimitedSet<5>({a, b, c}, std::greater<int>()); vh::Eq("make:list_down", All(v), down, ctx); }
  { const std::vector<int> src{a, b, c}; auto v = MakeLimitedSet<3>(src.begin(), src.end()); vh::Eq("make:range", All(v), three, ctx); auto w = MakeLimitedSet<3>(src.begin(), src.end(), std::greater<int>()); vh::Eq("make:range_down", All(w), down, ctx); }
  { const std::forward_list<int> src{a, b, c}; auto v = MakeLimitedSet<4>(src.begin(), src.end()); vh::Eq("make:forward_range", All(v), three, ctx); }
  { auto v = MakeLimitedSet<int, 7>(); vh::Check(v.empty() && v.capacity() == 7, "make:empty", ctx); }
  { auto v = MakeLimitedSet("yy", "x"); vh::Eq("make:chars", std::string(v.at_index(0)) + std::string(v.at_index(1)), std::string("xyy"), ctx); }
  { auto v = MakeLimitedSet<std::string>("yy", "x", "x"); vh::Eq("make:chars_as", v.at_index(0) + v.at_index(1), std::string("xyy"), ctx); vh::Eq("make:chars_as", v.size(), 2U, ctx); }
  { const int arr[3] = {a, b, c}; auto v = ToLimitedSet(arr); vh::Eq("make:array", All(v), three, ctx); auto w = ToLimitedSet(arr); vh::Check(w == v, "make:array", ctx); }
  { LimitedSet v{a, b, c}; vh::Eq("make:deduced", All(v), three, ctx); }
  { const LimitedSet<std::string_view, 2> src{std::string_view(s), std::string_view(t)}; const LimitedSet<std::string, 3> v(src); vh::Eq("make:converted", All(v), two, ctx); LimitedSet<std::string, 3> w; w.emplace(""); w = src; vh::Eq("make:convert_assigned", All(w), two, ctx); vh::Check(v == w && v == src, "make:converted_eq", ctx); }
  { const std::set<int> srt{a, b, c}; using So = LimitedSet<int, LimitedOptions<4, LimitedOptionsFlag::kRequireSortedInput>{}>; const So v(srt.begin(), srt.end()); vh::Eq("make:sorted", All(v), three, ctx); So w(v); w.emplace(a + 1); const std::map<int, std::string> sm{{a, s}, {b, t}}; const LimitedMap<int, std::string, LimitedOptions<4, LimitedOptionsFlag::kRequireSortedInput>{}> mv(sm.begin(), sm.end()); vh::Eq("make:sorted_map", All(mv), pairs, ctx); std::set<int> x(srt); x.insert(a + 1); vh::Eq("make:sorted", All(w), All(x), ctx); }
  { auto m = MakeLimitedMap(P{a, s}, P{b, t}); vh::Eq("make:map_args", All(m), pairs, ctx); vh::Eq("make:capacity", m.capacity(), 2U, ctx); }
  { auto m = MakeLimitedMap<5>({P{a, s}, P{b, t}}); vh::Eq("make:map_list", All(m), pairs, ctx); }
  { const std::vector<P> src{{a, s}, {b, t}}; auto m = MakeLimitedMap<3>(src.begin(), src.end()); vh::Eq("make:map_range", All(m), pairs, ctx); }
  { const std::map<int, std::string> src{{a, s}, {b, t}}; LimitedMap<int, std::string, 4> m(src.begin(), src.end()); vh::Eq("make:map_from_map", All(m), pairs, ctx); }
  { P arr[2] = {{a, s}, {b, t}}; auto m = ToLimitedMap(arr); vh::Eq("make:map_array", All(m), pairs, ctx); vh::Check(arr[0].second == s && arr[1].second == t, "make:lvalues_left", ctx); auto n = ToLimitedMap(std::move(arr)); vh::Eq("make:map_array_moved", All(n), pairs, ctx); }
  { const LimitedMap<int, std::string, 3> src{{a, s}, {b, t}}; const LimitedMap<long, std::string, 4> m(src); vh::Eq("make:map_converted", All(m), pairs, ctx); LimitedMap<long, std::string, 4> w{{77, ""}}; w = src; vh::Eq("make:map_convert_assigned", All(w), pairs, ctx); vh::Check(m == w && m == src, "make:converted_eq", ctx); }
  { auto m = MakeLimitedMap<int, std::string, 6>(); vh::Check(m.empty() && m.capacity() == 6, "make:map_empty", ctx); }
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}
// A foreign key may stand for several elements: all of those with its group.
struct InGroup { int group = 0; int id = 0; std::string text; bool operator==(const InGroup&) const = default; };
struct GroupLess {
  using is_transparent = void;
  bool operator()(const InGroup& a, const InGroup& b) const { return a.group != b.group ? a.group < b.group : a.id < b.id; }
  bool operator()(const InGroup& a, int g) const { return a.group < g; }
  bool operator()(int g, const InGroup& a) const { return g < a.group; }
};
template <std::size_t N> void Grouped(vh::Rng& r) {
  LimitedSet<InGroup, N, GroupLess> s; std::set<InGroup, GroupLess> ms;
  LimitedMap<InGroup, std::string, N, GroupLess> m; std::map<InGroup, std::string, GroupLess> mm;
  std::string ctx = std::to_string(N);
  const int groups = static_cast<int>(1 + r.Below(4));
  for (std::size_t i = r.Below(N + 1); i > 0; --i) {
    const InGroup k{static_cast<int>(r.Below(static_cast<std::uint64_t>(groups))) * 2, static_cast<int>(r.Below(12)), std::string(r.Below(40), 'x')};
    s.insert(k); ms.insert(k); m.emplace(k, k.text + "!"); mm.emplace(k, k.text + "!");
    ctx += " " + std::to_string(k.group) + "." + std::to_string(k.id);
  }
  vh::Case(ctx);
  for (int g = -1; g <= 2 * groups; ++g) {
    const auto& cs = s; const auto& cm = m;
    const auto lo = std::distance(ms.begin(), ms.lower_bound(g)), up = std::distance(ms.begin(), ms.upper_bound(g));
    const auto probe = [&](auto& c, const char* what) {
      vh::Check(c.lower_bound(g) - c.begin() == lo, std::string("grouped:lower_bound:") + what, [&] { return ctx + " group " + std::to_string(g); });
      vh::Check(c.upper_bound(g) - c.begin() == up, std::string("grouped:upper_bound:") + what, [&] { return ctx + " group " + std::to_string(g); });
      const auto e = c.equal_range(g);
      vh::Check(e.first - c.begin() == lo && e.second - c.begin() == up && c.count(g) == static_cast<std::size_t>(up - lo) && c.contains(g) == (up > lo), std::string("grouped:range:") + what, [&] { return ctx + " group " + std::to_string(g); });
      const auto f = c.find(g);
      vh::Check(up > lo ? f - c.begin() >= lo && f - c.begin() < up : f == c.end(), std::string("grouped:find:") + what, [&] { return ctx + " group " + std::to_string(g); });
    };
    probe(s, "set"); probe(cs, "const_set"); probe(m, "map"); probe(cm, "const_map");
    vh::Eval(4);
  }
  for (int t = 0; t < 3; ++t) {
    const int g = static_cast<int>(r.Below(static_cast<std::uint64_t>(groups + 1))) * 2;
    const std::size_t want = ms.count(g);
    const auto drop = [&](auto& c) { const auto e = c.equal_range(g); c.erase(e.first, e.second); };
    drop(ms); drop(mm);
    vh::Eq("grouped:erase:count", s.erase(g), want, ctx + " -" + std::to_string(g));
    vh::Eq("grouped:erase_map:count", m.erase(g), want, ctx + " -" + std::to_string(g));
    vh::Check(std::equal(s.begin(), s.end(), ms.begin(), ms.end()) && std::equal(m.begin(), m.end(), mm.begin(), mm.end()), "grouped:after_erase", [&] { return ctx + " -" + std::to_string(g); });
    vh::Count(want > 1 ? "groups_erased" : "single_erased");
    if (t == 0 && s.size() < N) { const InGroup k{g, 99, "new"}; vh::Check(s.insert(k).second == ms.insert(k).second && m.emplace(k, "n").second == mm.emplace(k, "n").second, "grouped:insert", ctx); }
  }
  vh::Distinct(vh::HashAll(ctx));
}
// Lists of keys, whatever their number and wherever the one that decides is.
template <typename C> void Lists(vh::Rng& r) {
  LimitedSet<int, 20, C> s; LimitedMap<int, int, 20, C> m;
  std::set<int> ms;
  for (std::size_t i = r.Below(20); i > 0; --i) { const int k = static_cast<int>(r.Below(40)); s.insert(k); m.emplace(k, k); ms.insert(k); }
  const bool in = r.Coin() && !ms.empty();
  const std::vector<int> have(ms.begin(), ms.end());
  int v[9];
  for (int& x : v) { x = in ? have[r.Below(have.size())] : 100 + static_cast<int>(r.Below(9)); }
  const std::size_t at = r.Below(9);
  if (r.Chance(3, 4)) { v[at] = in ? 200 : have.empty() ? 1 : have[r.Below(have.size())]; }
  const auto test = [&](std::initializer_list<int> l) {
    bool all = true, any = false;
    std::string ctx;
    for (const int x : l) { const bool h = ms.contains(x); all = all && h; any = any || h; ctx += (h ? " +" : " -") + std::to_string(x); }
    const std::vector<int> as_vector(l);
    const std::list<int> as_list(l);
    vh::Check(s.contains_all(l) == all && m.contains_all(l) == all && s.contains_all(as_vector) == all && m.contains_all(as_list) == all, "lists:all", [&] { return ctx; });
    vh::Check(s.contains_any(l) == any && m.contains_any(l) == any && s.contains_any(as_vector) == any && m.contains_any(as_list) == any, "lists:any", [&] { return ctx; });
    vh::Eval(8);
    vh::Distinct(vh::HashAll(ctx, l.size()));
    vh::Count(any && !all ? "mixed_lists" : "plain_lists");
  };
  vh::Case("lists");
  test({}); test({v[0]}); test({v[0], v[1]}); test({v[0], v[1], v[2]}); test({v[0], v[1], v[2], v[3], v[4]}); test({v[0], v[1], v[2], v[3], v[4], v[5]}); test({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]});
}
template <typename C> void Foreign(vh::Rng& r, const char* name) {
  using Set = LimitedSet<std::string, 12, C>;
  using Map = LimitedMap<std::string, int, 12, C>;
  Set s; std::set<std::string, std::less<>> ms;
  Map m; std::map<std::string, int, std::less<>> mm;
  std::string ctx = name;
  const std::size_t n = r.Below(12);
  for (std::size_t i = 0; i < n; ++i) { const int c = static_cast<int>(r.Below(30)); const auto k = lo::Make<std::string>(c); s.insert(k); ms.insert(k); m.emplace(k, c); mm.emplace(k, c); ctx += " " + std::to_string(c); }
  vh::Case(ctx);
  const std::string key = std::string("foreign:") + name;
  const Set& cs = s; const Map& cm = m;
  for (int c = 0; c < 30; ++c) {
    const std::string text = lo::Make<std::string>(c);
    const std::string_view k = text;
    const char* z = text.c_str();
    const auto at = [](const auto& x, auto it) { return static_cast<std::ptrdiff_t>(std::distance(x.begin(), it)); };
    const std::ptrdiff_t f = at(ms, ms.find(k)), l = at(ms, ms.lower_bound(k)), u = at(ms, ms.upper_bound(k));
    vh::Check(s.find(k) - s.begin() == f && cs.find(k) - cs.begin() == f && cm.find(k) - cm.begin() == f && m.find(k) - m.begin() == f && cs.find(z) - cs.begin() == f, key + ":find", ctx);
    vh::Check(s.lower_bound(k) - s.begin() == l && cs.lower_bound(k) - cs.begin() == l && cm.lower_bound(k) - cm.begin() == l && m.lower_bound(k) - m.begin() == l, key + ":lower_bound", ctx);
    vh::Check(s.upper_bound(k) - s.begin() == u && cs.upper_bound(k) - cs.begin() == u && cm.upper_bound(k) - cm.begin() == u && m.upper_bound(k) - m.begin() == u, key + ":upper_bound", ctx);
    const auto e = cs.equal_range(k);
    vh::Check(e.first - cs.begin() == l && e.second - cs.begin() == u && cs.count(k) == ms.count(k) && cs.contains(k) == ms.contains(k) && cm.contains(k) == ms.contains(k) && cm.count(k) == ms.count(k), key + ":contains", ctx);
    vh::Eq(key + ":index_of", cs.index_of(k), ms.contains(k) ? static_cast<std::size_t>(f) : Set::npos, ctx);
    if (ms.contains(k)) { vh::Check(cm.at(k) == c && m.at(k) == c, key + ":at", ctx); }
  }
  std::vector<std::string> some; std::vector<std::string_view> views; bool all = true, any = false;
  for (std::size_t i = r.Below(4); i > 0; --i) { some.push_back(lo::Make<std::string>(static_cast<int>(r.Below(30)))); all = all && ms.contains(some.back()); any = any || ms.contains(some.back()); }
  for (const auto& x : some) { views.push_back(x); }
  const std::set<std::string> as_set(some.begin(), some.end());
  vh::Check(cs.contains_all(some) == all && cs.contains_all(views) == all && cs.contains_all(as_set) == all && cm.contains_all(views) == all, key + ":contains_all", ctx);
  vh::Check(cs.contains_any(some) == any && cs.contains_any(views) == any && cs.contains_any(as_set) == any && cm.contains_any(some) == any, key + ":contains_any", ctx);
  const auto p = lo::Make<std::string>(static_cast<int>(r.Below(30))), q = lo::Make<std::string>(static_cast<int>(r.Below(30)));
  vh::Check(cs.contains_all({p, q}) == (ms.contains(p) && ms.contains(q)) && cs.contains_any({p, q}) == (ms.contains(p) || ms.contains(q)), key + ":contains_list", ctx);
  // Erasure by a foreign key, sometimes one that views an element.
  std::string_view k = p;
  if (!s.empty() && r.Coin()) { k = s.at_index(r.Below(s.size())); }
  const std::string owned(k);
  const auto want = ms.erase(owned);
  mm.erase(owned);
  vh::Eq(key + ":erase_map", m.erase(k), want, ctx);
  vh::Eq(key + ":erase", s.erase(k), want, ctx);
  vh::Check(std::equal(s.begin(), s.end(), ms.begin(), ms.end()), key + ":after_erase", ctx + " -" + owned);
  vh::Check(std::equal(m.begin(), m.end(), mm.begin(), mm.end()), key + ":after_erase", ctx + " -" + owned);
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}
// Without a transparent comparator a foreign key is converted.
void Converted(vh::Rng& r) {
  LimitedSet<std::string, 5> s; std::set<std::string> m;
  for (std::size_t i = r.Below(5); i > 0; --i) { const auto k = lo::Make<std::string>(static_cast<int>(r.Below(8))); s.insert(k); m.insert(k); }
  const auto k = lo::Make<std::string>(static_cast<int>(r.Below(8)));
  vh::Eq("converted:find", s.find(k.c_str()) - s.begin(), std::distance(m.begin(), m.find(k)), k);
  vh::Eq("converted:erase", s.erase(k.c_str()), m.erase(k), k);
  vh::Check(std::equal(s.begin(), s.end(), m.begin(), m.end()), "converted:after_erase", k);
  vh::Eval();
}
}  // namespace

void VhMain() {
  vh::Section("excess_set", 150, 4000, [](vh::Rng& r, std::uint64_t i) { Excess<S>(r, i, "set", SetExcesses()); });
  vh::Section("excess_map", 120, 4000, [](vh::Rng& r, std::uint64_t i) { Excess<M>(r, i, "map", MapExcesses()); });
  vh::Section("making", 400, 20000, [](vh::Rng& r, std::uint64_t) { Makers(r); });
  vh::Section("foreign_keys", 1500, 80000, [](vh::Rng& r, std::uint64_t) { if (r.Coin()) { Foreign<std::less<>>(r, "less"); } else { Foreign<mbo::types::CompareLess<std::string>>(r, "compare_less"); } });
  vh::Section("grouped_keys", 900, 60000, [](vh::Rng& r, std::uint64_t i) { if (i % 3 == 0) { Grouped<4>(r); } else if (i % 3 == 1) { Grouped<15>(r); } else { Grouped<24>(r); } });
  vh::Section("key_lists", 600, 40000, [](vh::Rng& r, std::uint64_t) { if (r.Coin()) { Lists<std::less<int>>(r); } else { Lists<std::less<>>(r); } });
  vh::Section("converted_keys", 300, 5000, [](vh::Rng& r, std::uint64_t) { Converted(r); });
}
