// The body of the parts of C06: PART selects the sources.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "mbo/container/convert_container.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "track.h"
#include "vh.h"

namespace std {
template <> struct hash<trk::Full> { std::size_t operator()(const trk::Full& f) const { return static_cast<std::size_t>(f.v()) * 77; } };
}
namespace {
using mbo::container::ConvertContainer;
using mbo::container::LimitedSet;
using mbo::container::LimitedVector;
constexpr std::size_t kCap = 30;

std::string Show(int v) { return std::to_string(v); }
std::string Show(std::size_t v) { return std::to_string(v); }
std::string Show(char v) { return std::to_string(static_cast<int>(v)); }
std::string Show(bool v) { return v ? "1" : "0"; }
std::string Show(const std::string& v) { return v; }
std::string Show(std::string_view v) { return std::string(v); }
std::string Show(const trk::Full& v) { return std::to_string(v.v()); }
template <typename A, typename B> std::string Show(const std::pair<A, B>& p) { return Show(p.first) + ":" + Show(p.second); }
template <typename T> concept Hashed = requires { typename T::hasher; };
template <typename C> std::vector<std::string> All(const C& c) {
  std::vector<std::string> r;
  for (const auto& v : c) { r.push_back(Show(v)); }
  if constexpr (Hashed<C>) { std::sort(r.begin(), r.end()); }
  return r;
}
std::string Join(const std::vector<std::string>& v) { std::string s; for (const auto& x : v) { s += x; s += ','; } return s; }

template <typename Out, typename V> void Put(Out& o, const V& v) {
  if constexpr (requires { o.push_back(typename Out::value_type(v)); }) { o.push_back(typename Out::value_type(v)); } else { o.insert(typename Out::value_type(v)); }
}
template <typename Out> struct Model { using type = Out; };
template <typename T, std::size_t N> struct Model<LimitedVector<T, N>> { using type = std::vector<T>; };
template <typename T, std::size_t N> struct Model<LimitedSet<T, N>> { using type = std::set<T>; };

std::string Val(int v) { return std::string(static_cast<std::size_t>(v % 3 == 0 ? 30 : 1), static_cast<char>('a' + v % 26)) + std::to_string(v); }
template <typename T> T Make(int v) { if constexpr (std::is_same_v<T, std::string>) { return Val(v); } else { return T(v); } }

// One conversion of src to Out in one of the ways that a source can be passed.
template <typename Out, typename In> void Plain(vh::Rng& r, const char* name, In& src) {
  typename Model<Out>::type want;
  for (const auto& v : src) { Put(want, v); }
  const auto before = All(src);
  const std::string ctx = std::string(name) + " " + Join(before);
  vh::Case(ctx);
  const std::string key = std::string("convert:") + name;
  switch (r.Below(3)) {
    case 0: { const Out out = ConvertContainer(src); vh::Eq(key + ":lvalue", Join(All(out)), Join(All(want)), ctx); vh::Eq(key + ":source", Join(All(src)), Join(before), ctx); const Out again = ConvertContainer(src); vh::Eq(key + ":again", Join(All(again)), Join(All(want)), ctx); break; }
    case 1: { const In& c = src; const Out out = ConvertContainer(c); vh::Eq(key + ":const_lvalue", Join(All(out)), Join(All(want)), ctx); vh::Eq(key + ":source", Join(All(src)), Join(before), ctx); break; }
    default: { In copy(src); const Out out = ConvertContainer(std::move(copy)); vh::Eq(key + ":rvalue", Join(All(out)), Join(All(want)), ctx); vh::Eq(key + ":source", Join(All(src)), Join(before), ctx); break; }
  }
  vh::Count(std::string("conversions"));
  vh::Eval();
  vh::Distinct(vh::HashAll(std::string(name), Join(before)));
}
// With a function of the elements.
template <typename Out, typename In, typename F> void With(vh::Rng& r, const char* name, In& src, F f) {
  using V = typename In::value_type;
  typename Model<Out>::type want;
  std::vector<std::string> order;
  for (const auto& v : src) { Put(want, f(V(v))); order.push_back(Show(V(v))); }
  const auto before = All(src);
  const std::string ctx = std::string(name) + " " + Join(before);
  vh::Case(ctx);
  const std::string key = std::string("function:") + name;
  std::vector<std::string> seen;
  const auto by_ref = [&](const V& v) { seen.push_back(Show(v)); return f(v); };
  auto by_val = [&](V v) { seen.push_back(Show(v)); return f(v); };
  const auto by_rval = [&](V&& v) { V w(std::move(v)); seen.push_back(Show(w)); return f(w); };
  switch (r.Below(6)) {
    case 0: { const Out out = ConvertContainer(src, by_ref); vh::Eq(key + ":lvalue_ref", Join(All(out)), Join(All(want)), ctx); break; }
    case 1: { const Out out = ConvertContainer(src, by_val); vh::Eq(key + ":lvalue_val", Join(All(out)), Join(All(want)), ctx); break; }
    case 2: { const In& c = src; const Out out = ConvertContainer(c, by_val); vh::Eq(key + ":const_val", Join(All(out)), Join(All(want)), ctx); break; }
    case 3: { const In& c = src; const Out out = ConvertContainer(c, [&](const V& v) { return by_ref(v); }); vh::Eq(key + ":const_ref", Join(All(out)), Join(All(want)), ctx); break; }
    case 4: { In copy(src); const Out out = ConvertContainer(std::move(copy), by_val); vh::Eq(key + ":rvalue_val", Join(All(out)), Join(All(want)), ctx); break; }
    default:
      if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*src.begin())>>) { In copy(src); const Out out = ConvertContainer(std::move(copy), by_rval); vh::Eq(key + ":rvalue_rval", Join(All(out)), Join(All(want)), ctx); }
      else { In copy(src); const Out out = ConvertContainer(std::move(copy), by_ref); vh::Eq(key + ":rvalue_ref", Join(All(out)), Join(All(want)), ctx); }
      break;
  }
  vh::Eq(key + ":calls", Join(seen), Join(order), ctx);
  vh::Eq(key + ":source", Join(All(src)), Join(before), ctx);
  vh::Count("conversions_with_function");
  vh::Eval();
  vh::Distinct(vh::HashAll(std::string(name), Join(before), 1));
}

template <typename T, typename In> void Targets(vh::Rng& r, const char* name, In& src) {
  const std::string n = name;
  switch (r.Below(8)) {
    case 0: Plain<std::vector<T>>(r, (n + ">vector").c_str(), src); break;
    case 1: Plain<std::deque<T>>(r, (n + ">deque").c_str(), src); break;
    case 2: Plain<std::list<T>>(r, (n + ">list").c_str(), src); break;
    case 3: Plain<std::set<T>>(r, (n + ">set").c_str(), src); break;
    case 4: Plain<std::multiset<T>>(r, (n + ">multiset").c_str(), src); break;
    case 5: Plain<std::unordered_set<T>>(r, (n + ">unordered_set").c_str(), src); break;
    case 6: Plain<LimitedVector<T, kCap>>(r, (n + ">limited_vector").c_str(), src); break;
    default: Plain<LimitedSet<T, kCap>>(r, (n + ">limited_set").c_str(), src); break;
  }
}
template <typename In, typename F> void WithTargets(vh::Rng& r, const char* name, In& src, F f) {
  using T = std::remove_cvref_t<decltype(f(*src.begin()))>;
  const std::string n = name;
  switch (r.Below(5)) {
    case 0: With<std::vector<T>>(r, (n + ">vector").c_str(), src, f); break;
    case 1: With<std::list<T>>(r, (n + ">list").c_str(), src, f); break;
    case 2: With<std::set<T>>(r, (n + ">set").c_str(), src, f); break;
    case 3: With<std::unordered_set<T>>(r, (n + ">unordered_set").c_str(), src, f); break;
    default: With<LimitedVector<T, kCap>>(r, (n + ">limited_vector").c_str(), src, f); break;
  }
}
template <typename In> In Fill(vh::Rng& r) {
  In c;
  using V = typename In::value_type;
  for (std::size_t n = r.Chance(1, 6) ? kCap : r.Below(12), k = 0; k < n; ++k) { Put(c, Make<V>(static_cast<int>(r.Below(20)))); }
  return c;
}
template <typename In, typename T> void Source(vh::Rng& r, const char* name) {
  trk::Reset();
  {
    In src = Fill<In>(r);
    if (r.Coin()) { Targets<T>(r, name, src); }
    else if constexpr (std::is_same_v<typename In::value_type, std::string>) { if (r.Coin()) { WithTargets(r, name, src, [](const std::string& s) { return s.size(); }); } else { WithTargets(r, name, src, [](const std::string& s) { return s + "!"; }); } }
    else if constexpr (std::is_same_v<typename In::value_type, trk::Full>) { WithTargets(r, name, src, [](const trk::Full& s) { return trk::Full(s.v() * 2); }); }
    else { WithTargets(r, name, src, [](auto v) { return std::to_string(v) + "."; }); }
  }
  trk::Done(std::string("convert:") + name, name);
}
}  // namespace

void VhMain() {
  vh::Section("convert", 8000, 300000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(6) + 6 * PART) {
#if PART == 0
      case 0: Source<std::vector<std::string>, std::string>(r, "vector<string>"); break;
      case 1: Source<std::deque<std::string>, std::string>(r, "deque<string>"); break;
      case 2: Source<std::list<std::string>, std::string>(r, "list<string>"); break;
      case 3: Source<std::set<std::string>, std::string>(r, "set<string>"); break;
      case 4: Source<std::multiset<std::string>, std::string>(r, "multiset<string>"); break;
      case 5: Source<LimitedVector<std::string, kCap>, std::string>(r, "limited_vector<string>"); break;
#elif PART == 1
      case 6: Source<LimitedSet<std::string, kCap>, std::string>(r, "limited_set<string>"); break;
      case 7: Source<std::vector<trk::Full>, trk::Full>(r, "vector<tracked>"); break;
      case 8: Source<std::list<trk::Full>, trk::Full>(r, "list<tracked>"); break;
      case 9: Source<std::set<trk::Full>, trk::Full>(r, "set<tracked>"); break;
      case 10: Source<std::vector<int>, int>(r, "vector<int>"); break;
      case 11: Source<std::vector<int>, trk::Full>(r, "vector<int>_to_tracked"); break;
#elif PART == 2
      case 12: Source<std::string, char>(r, "string"); break;
      case 13: { std::vector<std::string> hold = Fill<std::vector<std::string>>(r); std::vector<std::string_view> src(hold.begin(), hold.end()); Targets<std::string>(r, "vector<string_view>", src); break; }
      case 14: { std::array<std::string, 5> src; for (auto& s : src) { s = Val(static_cast<int>(r.Below(20))); } if (r.Coin()) { Targets<std::string>(r, "array<string>", src); } else { WithTargets(r, "array<string>", src, [](const std::string& s) { return s + "?"; }); } break; }
      case 15: { const std::string hold = r.Text("abc", r.Below(30)); std::string src = hold; const std::vector<int> out = ConvertContainer(src, [](char c) { return c - 'a'; }); std::vector<int> want; for (const char c : hold) { want.push_back(c - 'a'); } vh::Eq("convert:string:function", Join(All(out)), Join(All(want)), hold); vh::Eq("convert:string:source", src, hold, hold); vh::Eval(); break; }
      case 16: {
        std::map<std::string, std::string> src;
        for (std::size_t k = r.Below(10); k > 0; --k) { src[Val(static_cast<int>(r.Below(20)))] = Val(static_cast<int>(r.Below(20))); }
        const auto before = src;
        std::vector<std::string> want, keys;
        for (const auto& [a, b] : src) { want.push_back(a + "=" + b); keys.push_back(a + ":" + b); }
        const std::vector<std::string> out = ConvertContainer(src, [](const std::pair<const std::string, std::string>& p) { return p.first + "=" + p.second; });
        vh::Eq("convert:map:function", Join(out), Join(want), "");
        const std::vector<std::pair<std::string, std::string>> pairs = ConvertContainer(src);
        vh::Eq("convert:map", Join(All(pairs)), Join(keys), "");
        const std::map<std::string, std::string> same = ConvertContainer(pairs);
        vh::Check(same == before, "convert:map:back", Join(keys));
        vh::Check(src == before, "convert:map:source", Join(keys));
        vh::Eval();
        break;
      }
      case 17: {
        const std::string a = Val(static_cast<int>(r.Below(20))), b = Val(static_cast<int>(r.Below(20))), c = Val(static_cast<int>(r.Below(20)));
        const std::vector<std::string> out = ConvertContainer({a, b, c});
        vh::Eq("convert:initializer_list", Join(out), a + "," + b + "," + c + ",", "");
        const std::set<std::string> set = ConvertContainer({a, b, c});
        vh::Eq("convert:initializer_list:set", Join(All(set)), Join(All(std::set<std::string>{a, b, c})), "");
        const std::vector<std::string> fn = ConvertContainer({a, b, c}, [](const std::string& s) { return s + s; });
        vh::Eq("convert:initializer_list:function", Join(fn), a + a + "," + b + b + "," + c + c + ",", "");
        std::vector<std::unique_ptr<int>> ptrs;
        for (int k = 0; k < 5; ++k) { ptrs.push_back(std::make_unique<int>(k * 3)); }
        const std::list<std::shared_ptr<int>> shared = ConvertContainer(std::move(ptrs));
        std::string s;
        for (const auto& p : shared) { s += std::to_string(p ? *p : -1) + ","; }
        vh::Eq("convert:move_only", s, std::string("0,3,6,9,12,"), "");
        const std::vector<int> back = ConvertContainer(shared, [](const std::shared_ptr<int>& p) { return *p; });
        vh::Eq("convert:shared", Join(All(back)), s, "");
        vh::Eval();
        break;
      }
#endif
      default: break;
    }
  });
  trk::Report();
}
