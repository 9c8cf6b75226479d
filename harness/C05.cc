// VH-SHARDS: 4
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++ SAN=none
// VH-VARIANT: clang CXX=clang++
// VH-RULE: random contents (0 to 40 elements, repeats) of 16 source kinds (vector, deque, list, set, multiset, unordered set, map, unordered map, array, string, string view, initializer list, limited vector, set and map, and a container with iterators that check their own use) are scanned through AnyScan, ConstScan and ConvertingScan, borrowed (lvalue, const lvalue) or owned (rvalue); a scan is stored, copied, iterated repeatedly, with several iterators at once, by prefix and postfix increment, and its iterators are used after the scan is gone; values, addresses, size, emptiness, iterator equality and object lifetimes are judged. A case is one scan.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "mbo/container/any_scan.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "track.h"
#include "vh.h"

namespace std {
template <> struct hash<trk::Full> { std::size_t operator()(const trk::Full& f) const { return static_cast<std::size_t>(f.v()) * 77; } };
}
namespace {
using namespace mbo::container;  // NOLINT
using trk::Full;

std::string Show(int v) { return std::to_string(v); }
std::string Show(long v) { return std::to_string(v); }
std::string Show(char v) { return std::to_string(static_cast<int>(v)); }
std::string Show(double v) { return std::to_string(v); }
std::string Show(const std::string& v) { return v; }
std::string Show(std::string_view v) { return std::string(v); }
std::string Show(const Full& v) { return std::to_string(v.v()); }
template <typename A, typename B> std::string Show(const std::pair<A, B>& p) { return Show(p.first) + ":" + Show(p.second); }
std::string Join(const std::vector<std::string>& v) { std::string s; for (const auto& x : v) { s += x; s += ','; } return s; }

// A container with iterators of its own that notice a use after the container's end or after its death.
class Watched {
 public:
  using value_type = Full;
  template <typename V> class It {
   public:
    using iterator_category = std::forward_iterator_tag;
    using difference_type = std::ptrdiff_t;
    using value_type = Full;
    using pointer = V*;
    using reference = V&;
    It() = default;
    It(Watched* w, std::size_t i) : w_(w), i_(i) {}
    V& operator*() const { if (!Ok() || i_ >= w_->v_.size()) { vh::Fail("watched:deref", "iterator dereferenced outside the container"); } return w_->v_[i_]; }
    V* operator->() const { return &**this; }
    It& operator++() { if (!Ok() || i_ >= w_->v_.size()) { vh::Fail("watched:next", "iterator moved beyond the end of the container"); } else { ++i_; } return *this; }
    It operator++(int) { It r = *this; ++*this; return r; }
    friend bool operator==(const It& a, const It& b) { if (!a.Ok() || !b.Ok() || a.w_ != b.w_) { vh::Fail("watched:compare", "iterators of different or dead containers compared"); } return a.i_ == b.i_; }
   private:
    bool Ok() const { return w_ != nullptr && w_->magic_ == 0x600d; }
    Watched* w_ = nullptr;
    std::size_t i_ = 0;
  };
  using iterator = It<Full>;
  using const_iterator = It<const Full>;
  Watched() = default;
  Watched(const Watched& o) : v_(o.v_) { ++copies; }
  Watched(Watched&& o) noexcept : v_(std::move(o.v_)) {}
  Watched& operator=(const Watched&) = default;
  Watched& operator=(Watched&&) noexcept = default;
  ~Watched() { magic_ = 0xdead; }
  iterator begin() { return {this, 0}; }
  iterator end() { return {this, v_.size()}; }
  const_iterator begin() const { return {const_cast<Watched*>(this), 0}; }
  const_iterator end() const { return {const_cast<Watched*>(this), v_.size()}; }
  std::size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void push_back(Full f) { v_.push_back(std::move(f)); }
  static inline int copies = 0;
 private:
  std::vector<Full> v_;
  unsigned magic_ = 0x600d;
};

std::string Val(int v) { return std::string(static_cast<std::size_t>(v % 3 == 0 ? 30 : 1), static_cast<char>('a' + v % 26)) + std::to_string(v); }
template <typename T> T Make(int v) {
  if constexpr (std::is_same_v<T, std::string>) { return Val(v); }
  else if constexpr (requires { typename T::first_type; }) { return T(Make<std::remove_const_t<typename T::first_type>>(v), Make<typename T::second_type>(v + 1)); }
  else { return T(static_cast<T>(v)); }
}
template <typename C> C Fill(vh::Rng& r) {
  using V = typename C::value_type;
  C c{};
  if constexpr (requires { std::tuple_size<C>::value; }) {
    for (auto& v : c) { v = Make<V>(static_cast<int>(r.Below(20))); }
  } else {
    for (std::size_t n = r.Chance(1, 5) ? 0 : r.Chance(1, 6) ? 40 : r.Below(8), k = 0; k < n; ++k) {
      if constexpr (requires { c.push_back(Make<V>(1)); }) { c.push_back(Make<V>(static_cast<int>(r.Below(20)))); } else { c.insert(Make<V>(static_cast<int>(r.Below(60)))); }
    }
  }
  return c;
}
struct Want { std::vector<std::string> values; std::vector<const void*> at; };  // at: empty if the addresses are not to be the same.
template <typename C> Want WantOf(const C& c, bool addresses) { Want w; for (const auto& v : c) { w.values.push_back(Show(v)); if (addresses) { w.at.push_back(&v); } } return w; }

// What any user of a scan may do.
template <bool kByRef, typename Scan> void Judge(vh::Rng& r, const std::string& key, Scan& scan, const Want& want, const std::string& ctx) {
  const std::size_t n = want.values.size();
  vh::Eq(key + ":size", scan.size(), n, ctx);
  vh::Eq(key + ":empty", scan.empty(), n == 0, ctx);
  {
    std::vector<std::string> got; std::vector<const void*> at;
    for (auto&& v : scan) { got.push_back(Show(v)); if constexpr (kByRef) { at.push_back(&v); } if (got.size() > n + 3) { break; } }
    vh::Eq(key + ":range_for", Join(got), Join(want.values), ctx);
    if (kByRef && !want.at.empty()) { vh::Check(at == want.at, key + ":addresses", ctx); }
  }
  {
    std::vector<std::string> got;
    for (auto it = std::as_const(scan).begin(); it != std::as_const(scan).end(); ++it) { if constexpr (kByRef) { got.push_back(Show(*it.operator->())); } else { got.push_back(Show(*it)); } if (got.size() > n + 3) { break; } }
    vh::Eq(key + ":const_loop", Join(got), Join(want.values), ctx);
    got.clear();
    for (auto it = scan.cbegin(), e = scan.cend(); !(it == e); it++) { got.push_back(Show(*it)); if (got.size() > n + 3) { break; } }
    vh::Eq(key + ":cbegin_loop", Join(got), Join(want.values), ctx);
    got.clear();
    auto it = scan.begin(); const auto end = scan.end();
    while (it != end) { got.push_back(Show(*it++)); if (got.size() > n + 3) { break; } }
    vh::Eq(key + ":postfix_loop", Join(got), Join(want.values), ctx);
  }
  // A few iterators in turns.
  {
    struct Pos { decltype(scan.begin()) it; std::size_t at; };
    std::vector<Pos> its;
    for (std::size_t k = 0; k < 3; ++k) { its.push_back({scan.begin(), 0}); }
    for (std::size_t step = 0; step < 3 * n + 3; ++step) {
      Pos& p = its[r.Below(its.size())];
      if (!vh::Eq(key + ":turns_end", p.it == scan.end(), p.at == n, ctx)) { break; }
      {
        // Whichever side of the comparison is at the end.
        const Pos& q = its[r.Below(its.size())];
        if (p.at == n || q.at == n) {
          vh::Eq(key + ":end_equal", p.it == q.it, p.at == q.at, ctx + " at " + std::to_string(p.at) + " and " + std::to_string(q.at));
          vh::Eq(key + ":end_unequal", q.it != p.it, p.at != q.at, ctx + " at " + std::to_string(q.at) + " and " + std::to_string(p.at));
        }
        vh::Eq(key + ":end_first", scan.end() == q.it, q.at == n, ctx + " at " + std::to_string(q.at));
      }
      if (p.at == n) { continue; }
      if (!vh::Eq(key + ":turns_value", Show(*p.it), want.values[p.at], ctx + " at " + std::to_string(p.at))) { break; }
      if (kByRef && (!want.at.empty() || true)) {
        const Pos& q = its[r.Below(its.size())];
        // At the same element equal, at different ones not; both at the end is equal as well.
        vh::Eq(key + ":equal", p.it == q.it, p.at == q.at, ctx + " at " + std::to_string(p.at) + " and " + std::to_string(q.at));
        vh::Eq(key + ":unequal", p.it != q.it, p.at != q.at, ctx + " at " + std::to_string(p.at) + " and " + std::to_string(q.at));
      }
      if (r.Coin()) { ++p.it; } else {
        auto prev = p.it++;
        if (r.Coin()) { vh::Eq(key + ":previous", Show(*prev), want.values[p.at], ctx); }
      }
      ++p.at;
    }
  }
  vh::Check(scan.end() == scan.end(), key + ":end_end", ctx);
  vh::Eq(key + ":distance", std::distance(scan.begin(), scan.end()), static_cast<std::ptrdiff_t>(n), ctx);
  if constexpr (kByRef) { if (n == 0) { vh::Check(scan.begin().operator->() == nullptr, key + ":arrow_at_end", ctx); } }
  vh::Count("elements_judged", n * 5);
}

// Uses a scan in one of several ways: as it is, stored copies, and iterators that outlive it.
template <bool kByRef, typename Scan, typename MakeIt> void Use(vh::Rng& r, const std::string& key, const std::string& ctx, const Want& want, MakeIt make) {
  vh::Case(key + " " + ctx);
  switch (r.Below(4)) {
    case 0: { Scan scan = make(); Judge<kByRef>(r, key, scan, want, ctx); break; }
    case 1: { [&](const Scan& scan) { Judge<kByRef>(r, key, scan, want, ctx); }(make()); break; }
    case 2: {
      std::optional<Scan> first(make());
      Scan second = *first;
      if (r.Coin()) { Judge<kByRef>(r, key, *first, want, ctx); }
      first.reset();
      Judge<kByRef>(r, key + ":copy", second, want, ctx);
      break;
    }
    default: {
      std::optional<Scan> first(make());
      auto it = first->begin();
      const auto end = first->end();
      first.reset();
      std::vector<std::string> got;
      for (; it != end; ++it) { got.push_back(Show(*it)); if (got.size() > want.values.size() + 3) { break; } }
      vh::Eq(key + ":iterator_outlives", Join(got), Join(want.values), ctx);
      break;
    }
  }
  vh::Count("scans");
  vh::Eval();
  vh::Distinct(vh::HashAll(key, Join(want.values)));
}

// C: source; E: element as its iterators yield it without const; To: what it can be converted to.
template <typename C, typename E, typename To, bool kConstElements> void Source(vh::Rng& r, const std::string& name) {
  trk::Reset();
  {
    C src = Fill<C>(r);
    const std::string ctx = Join(WantOf(src, false).values);
    const std::string before = ctx;
    constexpr bool kStable = requires { typename C::allocator_type; } && !std::is_same_v<C, std::string>;  // Moves keep the elements where they are.
    using AnyE = std::conditional_t<kConstElements, const E, E>;
    const std::uint64_t copies = trk::R().copies;
    const auto conv = [](const Want& w) { Want x; for (const auto& s : w.values) { x.values.push_back(s); } return x; };
    std::uint64_t allowed = 0;
    switch (r.Below(9)) {
      case 0: Use<true, AnyScan<AnyE>>(r, name + ":any:lvalue", ctx, WantOf(src, true), [&] { return MakeAnyScan(src); }); break;
      case 1: { const C& c = src; Use<true, AnyScan<const E>>(r, name + ":any:const_lvalue", ctx, WantOf(src, true), [&] { return MakeAnyScan(c); }); break; }
      case 2: { const Want w = WantOf(src, kStable); C* moved = &src; Use<true, AnyScan<AnyE>>(r, name + ":any:rvalue", ctx, w, [&] { return MakeAnyScan(std::move(*moved)); }); break; }
      case 3: Use<true, ConstScan<E>>(r, name + ":const:lvalue", ctx, WantOf(src, true), [&] { return MakeConstScan(src); }); break;
      case 4: { const C& c = src; Use<true, ConstScan<E>>(r, name + ":const:const_lvalue", ctx, WantOf(src, true), [&] { return MakeConstScan(c); }); break; }
      case 5: { const Want w = WantOf(src, kStable); Use<true, ConstScan<E>>(r, name + ":const:rvalue", ctx, w, [&] { return MakeConstScan(std::move(src)); }); break; }
      case 6: Use<false, ConvertingScan<To>>(r, name + ":converting:lvalue", ctx, conv(WantOf(src, false)), [&] { return MakeConvertingScan(src); }); allowed = ~0ULL; break;
      case 7: { const C& c = src; Use<false, ConvertingScan<To>>(r, name + ":converting:const_lvalue", ctx, conv(WantOf(src, false)), [&] { return MakeConvertingScan(c); }); allowed = ~0ULL; break; }
      default: { const Want w = WantOf(src, false); Use<false, ConvertingScan<To>>(r, name + ":converting:rvalue", ctx, conv(w), [&] { return MakeConvertingScan(std::move(src)); }); allowed = ~0ULL; src = C{}; break; }
    }
    if (allowed == 0) { vh::Eq(name + ":copies", trk::R().copies - copies, std::uint64_t{0}, ctx); }
  }
  trk::Done(name, name);
}
// Writing through a scan reaches the source.
template <typename C> void Write(vh::Rng& r, const std::string& name) {
  trk::Reset();
  {
    C src = Fill<C>(r);
    std::vector<std::string> want;
    for (const auto& v : src) { want.push_back(Show(v) + "!"); }
    const auto write = [](AnyScan<std::string> scan) { for (auto& v : scan) { v += "!"; } };
    write(MakeAnyScan(src));
    std::vector<std::string> got;
    for (const auto& v : src) { got.push_back(Show(v)); }
    vh::Eq(name + ":write", Join(got), Join(want), "written through a scan");
    vh::Eval();
    vh::Distinct(vh::HashAll(name, Join(want), 7));
  }
  trk::Done(name, name);
}
template <typename T> std::vector<std::string> Values(const T& scan) { std::vector<std::string> r; for (const auto& v : scan) { r.push_back(Show(v)); } return r; }
}  // namespace

void VhMain() {
  vh::Section("sources", 6000, 300000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(17)) {
      case 0: Source<std::vector<Full>, Full, Full, false>(r, "vector<obj>"); break;
      case 1: Source<std::vector<std::string>, std::string, std::string_view, false>(r, "vector<string>"); break;
      case 2: Source<std::deque<Full>, Full, Full, false>(r, "deque<obj>"); break;
      case 3: Source<std::list<std::string>, std::string, std::string, false>(r, "list<string>"); break;
      case 4: Source<std::set<Full>, Full, Full, true>(r, "set<obj>"); break;
      case 5: Source<std::multiset<int>, int, long, true>(r, "multiset<int>"); break;
      case 6: Source<std::unordered_set<Full>, Full, Full, true>(r, "unordered_set<obj>"); break;
      case 7: Source<std::map<std::string, int>, std::pair<const std::string, int>, std::pair<std::string_view, long>, false>(r, "map<string,int>"); break;
      case 8: Source<std::unordered_map<int, Full>, std::pair<const int, Full>, std::pair<long, Full>, false>(r, "unordered_map<int,obj>"); break;
      case 9: Source<std::array<Full, 5>, Full, Full, false>(r, "array<obj,5>"); break;
      case 10: Source<std::array<std::string, 0>, std::string, std::string_view, false>(r, "array<string,0>"); break;
      case 11: Source<std::string, char, int, false>(r, "string"); break;
      case 12: Source<LimitedVector<Full, 40>, Full, Full, false>(r, "limited_vector<obj>"); break;
      case 13: Source<LimitedSet<std::string, 40>, std::string, std::string_view, false>(r, "limited_set<string>"); break;
      case 14: Source<LimitedMap<int, Full, 40>, std::pair<const int, Full>, std::pair<int, Full>, false>(r, "limited_map<int,obj>"); break;
      case 15: Watched::copies = 0; Source<Watched, Full, Full, false>(r, "watched"); vh::Eq("watched:copied", Watched::copies, 0, ""); break;
      default: Source<std::vector<std::pair<std::string, std::string>>, std::pair<std::string, std::string>, std::pair<std::string_view, std::string>, false>(r, "vector<pair>"); break;
    }
  });
  vh::Section("write", 1000, 30000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(4)) {
      case 0: Write<std::vector<std::string>>(r, "vector<string>"); break;
      case 1: Write<std::list<std::string>>(r, "list<string>"); break;
      case 2: Write<std::array<std::string, 4>>(r, "array<string>"); break;
      default: Write<LimitedVector<std::string, 40>>(r, "limited_vector<string>"); break;
    }
  });
  vh::Section("lists", 1500, 40000, [](vh::Rng& r, std::uint64_t) {
    const std::string a = r.Text("abc", r.Below(20)), b = r.Text("xyz", r.Below(20)), c = r.Text("0123", r.Below(30));
    const std::string want = Join({a, b, c});
    const std::initializer_list<std::string> list{a, b, c};
    const std::initializer_list<std::string_view> views{a, b, c};
    vh::Eq("list:any", Join(Values<AnyScan<const std::string>>(MakeAnyScan(list))), want, "");
    vh::Eq("list:const", Join(Values<ConstScan<std::string>>(MakeConstScan(list))), want, "");
    vh::Eq("list:const_direct", Join(Values<ConstScan<std::string>>(list)), want, "");
    vh::Eq("list:converting", Join(Values<ConvertingScan<std::string_view>>(MakeConvertingScan(list))), want, "");
    vh::Eq("list:converting_copy", Join(Values<ConvertingScan<std::string>>(MakeConvertingScan(views))), want, "");
    vh::Eq("list:temporary", Join(Values<ConstScan<std::string>>({a, b, c})), want, "");
    vh::Eq("list:temporary_converting", Join(Values<ConvertingScan<std::string_view>>({a, b, c})), want, "");
    vh::Eq("list:temporary_any", Join(Values<AnyScan<const std::string>>({a, b, c})), want, "");
    Use<true, ConstScan<std::string>>(r, "list:const", want, WantOf(list, true), [&] { return MakeConstScan(list); });
    Use<false, ConvertingScan<std::string>>(r, "list:converting", want, WantOf(list, false), [&] { return MakeConvertingScan(views); });
    // A view, owned by copy: its text stays where it is.
    const std::string text = a + b + c;
    const std::string_view view = text;
    Use<true, ConstScan<char>>(r, "view:const", text, WantOf(view, true), [&] { return MakeConstScan(std::string_view(text)); });
    Use<false, ConvertingScan<int>>(r, "view:converting", text, WantOf(view, false), [&] { return MakeConvertingScan(view); });
  });
  vh::Section("move_only", 500, 10000, [](vh::Rng& r, std::uint64_t) {
    trk::Reset();
    {
      std::list<std::unique_ptr<Full>> l;
      std::vector<int> want;
      for (std::size_t n = r.Below(6), k = 0; k < n; ++k) { want.push_back(static_cast<int>(r.Below(9))); l.push_back(std::make_unique<Full>(want.back())); }
      const auto take = [](AnyScan<std::unique_ptr<Full>> scan) { std::vector<std::unique_ptr<Full>> out; for (auto it = scan.begin(); it != scan.end(); ++it) { out.push_back(std::move(*it)); } return out; };
      const auto out = r.Coin() ? take(MakeAnyScan(std::move(l))) : take(MakeAnyScan(l));
      vh::Eq("move_only:count", out.size(), want.size(), "");
      for (std::size_t k = 0; k < out.size() && k < want.size(); ++k) { vh::Eq("move_only:value", out[k] == nullptr ? -1 : out[k]->v(), want[k], ""); }
      vh::Eval();
      vh::Distinct(vh::HashAll(want.size(), want.empty() ? 0 : want[0], 99));
    }
    trk::Done("move_only", "");
  });
  // A dereferenced end stops the program.
  vh::Once("end", [](vh::Rng&) {
    const auto dies = [](const char* key, auto fn) { const vh::ChildResult c = vh::RunChild(fn, 20); vh::Check(c.Stopped(), key, "a dereferenced end did not stop the program: " + c.err); vh::Count("ends_dereferenced"); };
    std::vector<int> empty; std::vector<int> one{1};
    dies("end:default", [&] { AnyScan<int>::iterator it; std::string s = Show(*it); return s.size() == 99 ? 1 : 0; });
    dies("end:empty", [&] { AnyScan<int> scan = MakeAnyScan(empty); auto it = scan.begin(); std::string s = Show(*it); return s.size() == 99 ? 1 : 0; });
    dies("end:after", [&] { ConstScan<int> scan = MakeConstScan(one); auto it = scan.begin(); ++it; std::string s = Show(*it); return s.size() == 99 ? 1 : 0; });
    dies("end:converting", [&] { ConvertingScan<long> scan = MakeConvertingScan(one); auto it = scan.begin(); ++it; std::string s = Show(*it); return s.size() == 99 ? 1 : 0; });
    dies("end:end", [&] { ConstScan<int> scan = MakeConstScan(one); std::string s = Show(*scan.end()); return s.size() == 99 ? 1 : 0; });
  });
  trk::Report();
}
