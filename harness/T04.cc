// VH-SHARDS: 4
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O0
// VH-RULE: random histories (up to 40 steps) over OpaqueValue (string, tracked and aggregate values), OpaqueContainer and ContainerProxy (vector, deque, list, string; of ints, strings and tracked objects; by member and by smart pointer), every operation mirrored on a plain value or container and all observable results compared; objects constructed by NoDestruct are counted by address. A case is one history.
#include <array>
#include <compare>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/container_proxy.h"
#include "mbo/types/no_destruct.h"
#include "mbo/types/opaque.h"
#include "track.h"
#include "vh.h"

struct Agg { int a = 1; std::string b = "b"; friend bool operator==(const Agg&, const Agg&) = default; friend auto operator<=>(const Agg&, const Agg&) = default; };
MBO_TYPES_OPAQUE_HOOKS(Agg)
namespace trk { MBO_TYPES_OPAQUE_HOOKS(Full) MBO_TYPES_OPAQUE_HOOKS(MoveOnly) }
namespace std {
MBO_TYPES_OPAQUE_HOOKS(std::string)
MBO_TYPES_OPAQUE_HOOKS(std::vector<int>)
MBO_TYPES_OPAQUE_HOOKS(std::vector<std::string>)
MBO_TYPES_OPAQUE_HOOKS(std::deque<int>)
MBO_TYPES_OPAQUE_HOOKS(std::list<std::string>)
MBO_TYPES_OPAQUE_HOOKS(std::vector<trk::Full>)
MBO_TYPES_OPAQUE_HOOKS(std::list<trk::Full>)
}
namespace {
using mbo::types::ContainerProxy;
using mbo::types::NoDestruct;
using mbo::types::OpaqueContainer;
using mbo::types::OpaqueValue;

template <typename T> T MakeVal(int v) {
  if constexpr (std::is_same_v<T, std::string>) { return std::string(static_cast<std::size_t>(v % 40), static_cast<char>('a' + v % 5)) + std::to_string(v); }
  else if constexpr (std::is_same_v<T, Agg>) { return Agg{v, std::to_string(v % 7)}; }
  else if constexpr (std::is_same_v<T, char>) { return static_cast<char>(v); }
  else { return T(v); }
}
template <typename T> std::string ShowVal(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) { return v; }
  else if constexpr (std::is_same_v<T, Agg>) { return std::to_string(v.a) + "/" + v.b; }
  else if constexpr (requires { v.v(); }) { return std::to_string(v.v()); }
  else { return std::to_string(v); }
}
int Sign(std::weak_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

template <typename T>
void ValueHistory(vh::Rng& r, const char* name) {
  trk::Reset();
  const std::string key = std::string("opaque_value:") + name;
  std::string log = key;
  {
    std::vector<std::unique_ptr<OpaqueValue<T>>> a(3);
    std::vector<T> m;
    for (auto& x : a) { const int v = static_cast<int>(r.Below(30)); x = std::make_unique<OpaqueValue<T>>(MakeVal<T>(v)); m.push_back(MakeVal<T>(v)); }
    const std::size_t steps = 1 + r.Below(40);
    for (std::size_t s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(3), j = r.Below(3);
      const int v = static_cast<int>(r.Below(30));
      const unsigned op = static_cast<unsigned>(r.Below(9));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + ")";
      vh::Case(log);
      vh::Count("value_op" + std::to_string(op));
      switch (op) {
        case 0: *a[i] = *a[j]; m[i] = m[j]; break;
        case 1: { const OpaqueValue<T>& c = *a[j]; auto n = std::make_unique<OpaqueValue<T>>(c); m[i] = m[j]; a[i] = std::move(n); break; }
        case 2: { auto n = std::make_unique<OpaqueValue<T>>(*a[j]); m[i] = m[j]; a[i] = std::move(n); break; }
        case 3: { auto n = std::make_unique<OpaqueValue<T>>(std::move(*a[j])); a[j] = std::make_unique<OpaqueValue<T>>(MakeVal<T>(v)); std::swap(m[i], m[j]); m[j] = MakeVal<T>(v); if (i == j) { a[i] = std::move(n); m[i] = m[j]; *a[i] = OpaqueValue<T>(MakeVal<T>(v)); } else { m[i] = m[i]; a[i] = std::move(n); } break; }
        case 4: if (i != j) { *a[i] = std::move(*a[j]); m[i] = m[j]; a[j] = std::make_unique<OpaqueValue<T>>(MakeVal<T>(v)); m[j] = MakeVal<T>(v); } break;
        case 5: **a[i] = MakeVal<T>(v); m[i] = MakeVal<T>(v); break;
        case 6: *(a[i]->operator->()) = MakeVal<T>(v); m[i] = MakeVal<T>(v); break;
        case 7: a[i] = std::make_unique<OpaqueValue<T>>(); m[i] = T(); break;
        default: *a[i] = OpaqueValue<T>(MakeVal<T>(v)); m[i] = MakeVal<T>(v); break;
      }
      for (std::size_t x = 0; x < 3; ++x) {
        const OpaqueValue<T>& cx = *a[x];
        vh::Eq(key + ":value", ShowVal(*cx), ShowVal(m[x]), log);
        vh::Check(cx.operator->() == &*cx && &**a[x] == &*cx && a[x]->operator->() == &*cx, key + ":access", log);
        for (std::size_t y = 0; y < 3; ++y) {
          const OpaqueValue<T>& cy = *a[y];
          vh::Check(x == y || &*cx != &*cy, key + ":shared", log);
          vh::Eq(key + ":eq", cx == cy, m[x] == m[y], log);
          vh::Eq(key + ":cmp", Sign(cx <=> cy), Sign(m[x] <=> m[y]), log);
          vh::Eq(key + ":eq_value", cx == m[y], m[x] == m[y], log);
          vh::Eq(key + ":cmp_value", Sign(cx <=> m[y]), Sign(m[x] <=> m[y]), log);
          if constexpr (std::is_same_v<T, std::string>) {
            if (cx == cy) { vh::Eq(key + ":hash", absl::HashOf(cx), absl::HashOf(cy), log); vh::Eq(key + ":std_hash", std::hash<OpaqueValue<T>>{}(cx), std::hash<T>{}(m[y]), log); }
            else { vh::Check(absl::HashOf(cx) != absl::HashOf(cy) && std::hash<OpaqueValue<T>>{}(cx) != std::hash<OpaqueValue<T>>{}(cy), key + ":hash_differs", log); }
          }
        }
      }
      trk::Clean(key, log);
      vh::Eval();
    }
  }
  trk::Done(key, log);
  vh::Distinct(vh::HashAll(log));
}

void MoveOnlyValue(vh::Rng& r) {
  trk::Reset();
  std::string log = "opaque_value:move_only";
  {
    std::vector<OpaqueValue<trk::MoveOnly>> a;
    std::vector<int> m;
    for (int k = 0, n = static_cast<int>(1 + r.Below(12)); k < n; ++k) { const int v = static_cast<int>(r.Below(100)); a.emplace_back(v); m.push_back(v); }  // Growth moves.
    if (a.size() > 2) { a.erase(a.begin() + 1); m.erase(m.begin() + 1); std::swap(a[0], a[1]); std::swap(m[0], m[1]); }
    for (std::size_t k = 0; k < a.size(); ++k) { vh::Eq("opaque_value:move_only", a[k]->v(), m[k], log); }
    vh::Eval();
  }
  trk::Done("opaque_value:move_only", log);
}

// The proxied container, by a member, by a smart pointer, and opaque.
template <typename C> struct ByMember { using element_type = C; C data; C& GetData() { return data; } const C& GetData() const { return data; } };
template <typename C> struct ByPtr {
  ByPtr() : data(std::make_unique<C>()) {}
  ByPtr(const ByPtr& o) : data(std::make_unique<C>(*o.data)) {}
  ByPtr& operator=(const ByPtr& o) { if (&o != this) { *data = *o.data; } return *this; }
  std::unique_ptr<C> data;
  C& GetData() { return *data; }
  const C& GetData() const { return *data; }
};
template <typename C> using MemberProxy = ContainerProxy<ByMember<C>, C, &ByMember<C>::GetData, &ByMember<C>::GetData>;
template <typename C> using PtrProxy = ContainerProxy<ByPtr<C>, C, &ByPtr<C>::GetData, &ByPtr<C>::GetData>;

template <typename P> const auto& Under(const P& p) {
  if constexpr (requires { p.GetData(); }) { return p.GetData(); } else { return *p; }
}
template <typename V> std::string ShowAll(const V& v) { std::string s; for (const auto& x : v) { s += ShowVal(x); s += ','; } return s; }

template <typename P, typename C>
void Observe(const std::string& key, P& p, C& c, const std::string& log) {
  const P& cp = p;
  const C& cc = c;
  vh::Eq(key + ":content", ShowAll(Under(cp)), ShowAll(cc), log);
  vh::Eq(key + ":range", ShowAll(cp), ShowAll(cc), log);
  { std::string s; for (auto it = p.begin(); it != p.end(); ++it) { s += ShowVal(*it); s += ','; } vh::Eq(key + ":begin", s, ShowAll(cc), log); }
  { std::string s; for (auto it = cp.cbegin(); it != cp.cend(); ++it) { s += ShowVal(*it); s += ','; } vh::Eq(key + ":cbegin", s, ShowAll(cc), log); }
  std::string rev;
  for (auto it = cc.rbegin(); it != cc.rend(); ++it) { rev += ShowVal(*it); rev += ','; }
  { std::string s; for (auto it = p.rbegin(); it != p.rend(); ++it) { s += ShowVal(*it); s += ','; } vh::Eq(key + ":rbegin", s, rev, log); }
  { std::string s; for (auto it = cp.rbegin(); it != cp.rend(); ++it) { s += ShowVal(*it); s += ','; } vh::Eq(key + ":rbegin_const", s, rev, log); }
  { std::string s; for (auto it = cp.crbegin(); it != cp.crend(); ++it) { s += ShowVal(*it); s += ','; } vh::Eq(key + ":crbegin", s, rev, log); }
  vh::Check(std::is_same_v<decltype(p.begin()), decltype(c.begin())> && std::is_same_v<decltype(cp.begin()), decltype(cc.begin())> && std::is_same_v<decltype(p.cbegin()), decltype(c.cbegin())> && std::is_same_v<decltype(p.crbegin()), decltype(c.crbegin())> && std::is_same_v<typename P::value_type, typename C::value_type>, key + ":types", log);
  vh::Eq(key + ":empty", cp.empty(), cc.empty(), log);
  vh::Eq(key + ":size", cp.size(), cc.size(), log);
  vh::Eq(key + ":max_size", cp.max_size(), cc.max_size(), log);
  if constexpr (requires { cc.capacity(); }) { vh::Eq(key + ":capacity", cp.capacity(), Under(cp).capacity(), log); vh::Check(cp.capacity() >= cc.size(), key + ":capacity", log); }
  if (!cc.empty()) {
    vh::Check(&p.front() == &*p.begin() && &cp.front() == &*cp.begin() && &p.back() == &*std::prev(p.end()) && &cp.back() == &*std::prev(cp.end()), key + ":ends", log);
    if constexpr (requires { cc.at(0); }) {
      for (std::size_t k = 0; k < cc.size(); ++k) { vh::Check(&p.at(k) == &*std::next(p.begin(), static_cast<std::ptrdiff_t>(k)) && &cp.at(k) == &p.at(k) && &p[k] == &p.at(k) && &cp[k] == &p.at(k), key + ":at", log); }
    }
  }
}

template <typename P, typename C>
void ProxyHistory(vh::Rng& r, const char* name) {
  using V = typename C::value_type;
  trk::Reset();
  const std::string key = std::string("proxy:") + name;
  std::string log = key;
  {
    std::vector<P> p(2);
    std::vector<C> c(2);
    const std::size_t steps = 1 + r.Below(40);
    for (std::size_t s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(2);
      const int v = static_cast<int>(r.Below(30));
      const unsigned op = static_cast<unsigned>(r.Below(16));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(v) + ")";
      vh::Case(log);
      vh::Count("proxy_op" + std::to_string(op));
      P& a = p[i];
      C& b = c[i];
      switch (op) {
        case 0: { const V x = MakeVal<V>(v); a.push_back(x); b.push_back(x); vh::Eq(key + ":source", ShowVal(x), ShowVal(MakeVal<V>(v)), log); break; }
        case 1: { V x = MakeVal<V>(v); a.push_back(std::move(x)); b.push_back(MakeVal<V>(v)); break; }
        case 2: if constexpr (requires { b.emplace_back(MakeVal<V>(v)); }) { auto& ret = a.emplace_back(MakeVal<V>(v)); b.emplace_back(MakeVal<V>(v)); vh::Check(&ret == &*std::prev(a.end()), key + ":emplace_back", log); } break;
        case 3: if constexpr (requires { b.emplace_front(MakeVal<V>(v)); }) { auto& ret = a.emplace_front(MakeVal<V>(v)); b.emplace_front(MakeVal<V>(v)); vh::Check(&ret == &*a.begin(), key + ":emplace_front", log); } break;
        case 4: if constexpr (requires { b.push_front(MakeVal<V>(v)); }) { const V x = MakeVal<V>(v); a.push_front(x); b.push_front(x); } break;
        case 5: if constexpr (requires { b.push_front(MakeVal<V>(v)); }) { a.push_front(MakeVal<V>(v)); b.push_front(MakeVal<V>(v)); } break;
        case 6: if (!b.empty()) { a.pop_back(); b.pop_back(); } break;
        case 7: if constexpr (requires { b.pop_front(); }) { if (!b.empty()) { a.pop_front(); b.pop_front(); } } break;
        case 8: if (r.Chance(1, 3)) { a.clear(); b.clear(); } break;
        case 9: a.resize(static_cast<std::size_t>(v % 9)); b.resize(static_cast<std::size_t>(v % 9)); break;
        case 10: if constexpr (requires { b.reserve(3); }) { a.reserve(static_cast<std::size_t>(v)); vh::Check(Under(a).capacity() >= static_cast<std::size_t>(v), key + ":reserve", log); b.reserve(static_cast<std::size_t>(v)); } break;
        case 11: if (!b.empty()) { const auto k = static_cast<std::ptrdiff_t>(r.Below(b.size())); *std::next(a.begin(), k) = MakeVal<V>(v); *std::next(b.begin(), k) = MakeVal<V>(v); } break;
        case 12: if (!b.empty()) { a.front() = MakeVal<V>(v); b.front() = MakeVal<V>(v); a.back() = MakeVal<V>(v + 1); b.back() = MakeVal<V>(v + 1); } break;
        case 13: if (!b.empty()) { if constexpr (requires { b.at(0); }) { const std::size_t k = r.Below(b.size()); if (r.Coin()) { a[k] = MakeVal<V>(v); } else { a.at(k) = MakeVal<V>(v); } b[k] = MakeVal<V>(v); } } break;
        case 14: { const P& other = p[1 - i]; a = other; b = c[1 - i]; break; }
        default: { P n(p[1 - i]); p[i] = std::move(n); c[i] = c[1 - i]; break; }
      }
      for (std::size_t x = 0; x < 2; ++x) {
        Observe(key, p[x], c[x], log);
        const P& cx = p[x];
        for (std::size_t y = 0; y < 2; ++y) {
          const P& cy = p[y];
          vh::Eq(key + ":eq", cx == cy, c[x] == c[y], log);
          vh::Eq(key + ":cmp", Sign(cx <=> cy), Sign(c[x] <=> c[y]), log);
          vh::Eq(key + ":eq_value", cx == c[y], c[x] == c[y], log);
          vh::Eq(key + ":cmp_value", Sign(cx <=> c[y]), Sign(c[x] <=> c[y]), log);
          if constexpr (!std::is_same_v<V, trk::Full>) { vh::Eq(key + ":hash", absl::HashOf(cx) == absl::HashOf(cy), c[x] == c[y], log); }
        }
      }
      trk::Clean(key, log);
      vh::Eval();
    }
  }
  trk::Done(key, log);
  vh::Distinct(vh::HashAll(log));
}

struct Sum { int n = -1; trk::Full t; Sum() = default; Sum(int a, trk::Full b) : n(a), t(std::move(b)) {} };
struct InitList { std::vector<int> v; InitList(const std::initializer_list<int>& l) : v(l) {} };
struct Thrice { int a, b, c; constexpr Thrice() : a(1), b(2), c(3) {} constexpr Thrice(int x, int y, int z) : a(x), b(y), c(z) {} ~Thrice() { std::abort(); } };
constinit NoDestruct<Thrice> g_constinit(4, 5, 6);  // Its destructor must not run at exit.
void NoDestructs(vh::Rng& r) {
  trk::Reset();
  const int v = static_cast<int>(r.Below(1000));
  const std::string ctx = std::to_string(v);
  vh::Case("no_destruct " + ctx);
  auto& reg = trk::R();
  void* leaked = nullptr;
  {
    const auto born = reg.constructed, dead = reg.destroyed;
    alignas(NoDestruct<trk::Full>) unsigned char buf[sizeof(NoDestruct<trk::Full>)];
    auto* n = new (buf) NoDestruct<trk::Full>(v);
    vh::Eq("no_destruct:constructed", reg.constructed - born - (reg.destroyed - dead), 1U, ctx);
    vh::Eq("no_destruct:value", (*n)->v(), v, ctx);
    vh::Eq("no_destruct:value", (**n).v(), v, ctx);
    vh::Eq("no_destruct:value", std::as_const(*n).Get().v(), v, ctx);
    vh::Check(&n->Get() == &**n && n->operator->() == &**n && &std::as_const(*n).Get() == &**n && std::as_const(*n).operator->() == &**n && &*std::as_const(*n) == &**n, "no_destruct:access", ctx);
    vh::Check(reinterpret_cast<unsigned char*>(&n->Get()) >= buf && reinterpret_cast<unsigned char*>(&n->Get() + 1) <= buf + sizeof(buf), "no_destruct:inside", ctx);
    n->Get() = trk::Full(v + 1);
    vh::Eq("no_destruct:assigned", (*n)->v(), v + 1, ctx);
    const auto before = reg.destroyed;
    n->~NoDestruct<trk::Full>();
    vh::Eq("no_destruct:destroyed", reg.destroyed, before, ctx);
    leaked = &n->Get();
    vh::Check(reg.live.size() == 1 && reg.live.contains(leaked), "no_destruct:alive", ctx);
    std::destroy_at(&n->Get());  // By hand, for the leak checker.
    trk::Done("no_destruct", ctx);
  }
  {
    alignas(NoDestruct<Sum>) unsigned char buf[sizeof(NoDestruct<Sum>)];
    auto* n = r.Coin() ? new (buf) NoDestruct<Sum>(v, trk::Full(v * 2)) : new (buf) NoDestruct<Sum>();
    const bool def = n->Get().n == -1;
    vh::Eq("no_destruct:args", n->Get().t.v(), def ? 0 : v * 2, ctx);
    vh::Eq("no_destruct:args", n->Get().n, def ? -1 : v, ctx);
    n->~NoDestruct<Sum>();
    vh::Eq("no_destruct:alive", reg.live.size(), std::size_t{1}, ctx);
    std::destroy_at(&n->Get());
    trk::Done("no_destruct", ctx);
  }
  {
    const std::string s = r.Text("abc", r.Below(60));
    alignas(NoDestruct<std::string>) unsigned char buf[sizeof(NoDestruct<std::string>)], buf2[sizeof(NoDestruct<std::string>)];
    auto* n = new (buf) NoDestruct<std::string>(s);
    auto* m = new (buf2) NoDestruct<std::string>(r.Coin() ? s : s + "x");
    vh::Eq("no_destruct:string", **n, s, ctx);
    vh::Eq("no_destruct:hash", absl::HashOf(*n) == absl::HashOf(*m), **n == **m, s);
    vh::Eq("no_destruct:stringify", absl::StrCat(*n), s, s);
    std::destroy_at(&n->Get());
    std::destroy_at(&m->Get());
  }
  {
    alignas(NoDestruct<InitList>) unsigned char buf[sizeof(NoDestruct<InitList>)];
    auto* n = new (buf) NoDestruct<InitList>(std::initializer_list<int>{v, 2, 3});
    vh::Eq("no_destruct:list", ShowAll((*n)->v), ShowAll(std::vector<int>{v, 2, 3}), ctx);
    std::destroy_at(&n->Get());
  }
  static constexpr NoDestruct<Thrice> k_def;
  static const NoDestruct<Thrice> k_args(7, 8, 9);
  static_assert(k_def->a == 1 && (*k_def).b == 2 && k_def.Get().c == 3);
  vh::Eq("no_destruct:static", k_args->a * 100 + (*k_args).b * 10 + k_args.Get().c, 789, ctx);
  vh::Eq("no_destruct:constinit", g_constinit->a * 100 + g_constinit->b * 10 + g_constinit->c, 456, ctx);
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}

// "Will never be a nullptr": a moved-from one as well.
template <typename F> void InChild(const char* key, F f) {
  const auto c = vh::RunChild(f, 20);
  vh::Check(!c.Died() && c.exited && c.code == 0, key, c.err.substr(0, 400));
  vh::Eval();
}
void MovedFrom(vh::Rng&) {
  InChild("moved_from_value", [] { OpaqueValue<std::string> a("x"); OpaqueValue<std::string> b(std::move(a)); _exit(a->size() < 100 ? 0 : 1); });  // NOLINT
  InChild("moved_from_container", [] { OpaqueContainer<std::vector<int>> a; a.push_back(1); auto b = std::move(a); _exit(a.size() < 100 ? 0 : 1); });  // NOLINT
  InChild("copy_of_moved_from_value", [] { OpaqueValue<std::string> a("x"); OpaqueValue<std::string> b(std::move(a)); OpaqueValue<std::string> c(a); _exit(c->size() < 100 ? 0 : 1); });  // NOLINT
}
}  // namespace

void VhMain() {
  vh::Section("values", 2500, 200000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(4)) {
      case 0: ValueHistory<std::string>(r, "string"); break;
      case 1: ValueHistory<trk::Full>(r, "tracked"); break;
      case 2: ValueHistory<Agg>(r, "aggregate"); break;
      default: MoveOnlyValue(r); break;
    }
  });
  vh::Section("proxies", 3200, 300000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(11)) {
      case 0: ProxyHistory<OpaqueContainer<std::vector<int>>, std::vector<int>>(r, "opaque_vector_int"); break;
      case 1: ProxyHistory<OpaqueContainer<std::vector<std::string>>, std::vector<std::string>>(r, "opaque_vector_string"); break;
      case 2: ProxyHistory<OpaqueContainer<std::deque<int>>, std::deque<int>>(r, "opaque_deque"); break;
      case 3: ProxyHistory<OpaqueContainer<std::list<std::string>>, std::list<std::string>>(r, "opaque_list"); break;
      case 4: ProxyHistory<OpaqueContainer<std::vector<trk::Full>>, std::vector<trk::Full>>(r, "opaque_vector_tracked"); break;
      case 5: ProxyHistory<OpaqueContainer<std::list<trk::Full>>, std::list<trk::Full>>(r, "opaque_list_tracked"); break;
      case 6: ProxyHistory<MemberProxy<std::deque<trk::Full>>, std::deque<trk::Full>>(r, "member_deque_tracked"); break;
      case 7: ProxyHistory<MemberProxy<std::string>, std::string>(r, "member_string"); break;
      case 8: ProxyHistory<PtrProxy<std::vector<std::string>>, std::vector<std::string>>(r, "ptr_vector"); break;
      case 9: ProxyHistory<PtrProxy<std::list<trk::Full>>, std::list<trk::Full>>(r, "ptr_list_tracked"); break;
      default: ProxyHistory<MemberProxy<std::vector<int>>, std::vector<int>>(r, "member_vector"); break;
    }
  });
  vh::Section("no_destruct", 2000, 50000, [](vh::Rng& r, std::uint64_t) { NoDestructs(r); });
  vh::Once("moved_from", MovedFrom);
  trk::Report();
}
