#ifndef VERIF_LIMORD_H_
#define VERIF_LIMORD_H_
// Random histories of limited sets and maps beside std::set and std::map. The models hold numbers ("codes"); Make turns a
// code into a key or value of the type under test in a way that keeps the order, so that both compare alike.
#include <compare>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "track.h"
#include "vh.h"

namespace lo {
using mbo::container::LimitedMap;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
using mbo::container::LimitedSet;

constexpr int kCodes = 48;
template <typename T> T Make(int c) {
  if constexpr (std::is_same_v<T, std::string>) {
    if (c == 0) { return ""; }
    std::string s = std::to_string(c);
    s.insert(0, 3 - s.size(), '0');
    return c % 3 == 0 ? s + std::string(30, 'x') : s;
  } else if constexpr (std::is_same_v<T, double>) { return c / 2.0; }
  else { return T(c); }
}
template <typename T> int Code(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) { return v.empty() ? 0 : v.size() < 3 || v != Make<std::string>(std::stoi(v.substr(0, 3))) ? -7777 : std::stoi(v.substr(0, 3)); }
  else if constexpr (std::is_same_v<T, double>) { return static_cast<int>(v * 2); }
  else if constexpr (requires { v.v(); }) { return v.v(); }
  else { return static_cast<int>(v); }
}

// A comparator with a state: the direction, and how many neighbouring codes count as the same.
template <typename K> struct Stateful {
  int width = 1;
  bool down = false;
  Stateful() = default;
  Stateful(int w, bool d) : width(w), down(d) {}
  bool operator()(const K& a, const K& b) const noexcept {
    const int x = Code(a) / width, y = Code(b) / width;
    return down ? y < x : x < y;
  }
};
// The comparator of the model for a comparator of the type under test.
template <typename C> struct ModelCmp { using type = std::less<int>; static type From(const C&) { return {}; } };
template <typename K> struct ModelCmp<std::greater<K>> { using type = std::greater<int>; static type From(const std::greater<K>&) { return {}; } };
template <> struct ModelCmp<std::greater<>> { using type = std::greater<int>; static type From(const std::greater<>&) { return {}; } };
template <typename K> struct ModelCmp<Stateful<K>> { using type = Stateful<int>; static type From(const Stateful<K>& c) { return {c.width, c.down}; } };
template <typename C> C NewCmp(vh::Rng& r) {
  if constexpr (requires(C c) { c.width; }) { return C(static_cast<int>(r.Range(1, 4)), r.Coin()); } else { return C(); }
}
template <typename C> std::string ShowCmp(const C& c) {
  if constexpr (requires { c.width; }) { return "/" + std::to_string(c.width) + (c.down ? "down" : "up"); } else { return ""; }
}

struct NoValue {};

// V = NoValue: a set.
template <typename K, typename V, auto kOpt, typename C>
class History {
 public:
  static constexpr bool kMap = !std::is_same_v<V, NoValue>;
  static constexpr std::size_t N = mbo::container::MakeLimitedOptions<kOpt>().kCapacity;
  template <auto O> using SetOrMap = std::conditional_t<kMap, LimitedMap<K, std::conditional_t<kMap, V, int>, O, C>, LimitedSet<K, O, C>>;
  using L = SetOrMap<kOpt>;
  using Wide = SetOrMap<N + 3>;
  using MC = typename ModelCmp<C>::type;
  using M = std::conditional_t<kMap, std::map<int, int, MC>, std::set<int, MC>>;
  static constexpr bool kCopy = std::is_copy_constructible_v<K> && (std::is_same_v<V, NoValue> || std::is_copy_constructible_v<V>);
  static constexpr std::size_t kSets = 3;

  History(vh::Rng& r, std::string key) : r_(r), key_(std::move(key)) {}

  void Run() {
    trk::Reset();
    log_ = key_ + "<" + std::to_string(N) + ">:";
    {
      std::vector<std::unique_ptr<L>> a;
      std::vector<M> m;
      for (std::size_t k = 0; k < kSets; ++k) {
        const C c = NewCmp<C>(r_);
        log_ += ShowCmp(c);
        a.push_back(std::make_unique<L>(c));
        m.emplace_back(ModelCmp<C>::From(c));
      }
      const std::size_t steps = 1 + r_.Below(40);
      for (std::size_t s = 0; s < steps; ++s) {
        Step(a, m);
        for (std::size_t k = 0; k < kSets; ++k) { Observe(*a[k], m[k]); }
        Lookup(*a[r_.Below(kSets)], m);
        Compare(a, m);
        trk::Clean(key_, log_);
        vh::Eval();
      }
    }
    trk::Done(key_, log_);
    vh::Distinct(vh::HashAll(log_));
  }

 private:
  int NewCode() { return static_cast<int>(r_.Below(r_.Coin() ? kCodes : N + 3)); }
  static K Key(int c) { return Make<K>(c); }
  static auto Val(int c) { if constexpr (kMap) { return Make<V>(c); } else { return 0; } }
  static auto Elem(int c, int v) { if constexpr (kMap) { return typename L::value_type(Key(c), Val(v)); } else { return Key(c); } }
  static auto MElem(int c, int v) { if constexpr (kMap) { return std::pair<const int, int>(c, v); } else { return c; } }
  // Whether one more key fits (or it is there already, which needs no room).
  static bool Room(const M& m, int c) { return m.size() < N || m.contains(c); }
  static std::string ShowModel(const M& m) { std::string s; for (const auto& e : m) { if constexpr (kMap) { s += std::to_string(e.first) + "=" + std::to_string(e.second) + ","; } else { s += std::to_string(e) + ","; } } return s; }
  template <typename S> static std::string ShowLimited(const S& l) { std::string s; for (const auto& e : l) { if constexpr (kMap) { s += std::to_string(Code(e.first)) + "=" + std::to_string(Code(e.second)) + ","; } else { s += std::to_string(Code(e)) + ","; } } return s; }
  template <typename LI, typename MI> void Position(L& a, M& m, const LI& li, const MI& mi, const char* what) {
    vh::Eq(key_ + ":" + what, static_cast<std::ptrdiff_t>(std::distance(a.begin(), li)), static_cast<std::ptrdiff_t>(std::distance(m.begin(), mi)), log_);
  }
  template <typename LR, typename MR> void Inserted(L& a, M& m, const LR& lr, const MR& mr, const char* what) {
    vh::Eq(key_ + ":" + what + "_inserted", lr.second, mr.second, log_);
    Position(a, m, lr.first, mr.first, what);
  }

  void Step(std::vector<std::unique_ptr<L>>& all, std::vector<M>& model) {
    const std::size_t i = r_.Below(kSets), j = r_.Below(kSets);
    const int c = NewCode(), x = static_cast<int>(r_.Below(60));
    const unsigned op = static_cast<unsigned>(r_.Below(36));
    L& a = *all[i];
    M& m = model[i];
    const std::size_t p = r_.Below(m.size() + 1), q = p + r_.Below(m.size() - p + 1), n = r_.Below(5);
    log_ += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(c) + "," + std::to_string(x) + "," + std::to_string(p) + "," + std::to_string(q) + "," + std::to_string(n) + ")";
    vh::Case(log_);
    const auto at = [](auto& s, std::size_t k) { return std::next(s.begin(), static_cast<std::ptrdiff_t>(k)); };
    const auto code_at = [&](std::size_t k) { const auto it = at(m, k); if constexpr (kMap) { return it->first; } else { return *it; } };
    const auto key_at = [&](std::size_t k) -> const K& { const auto it = at(a, k); if constexpr (kMap) { return it->first; } else { return *it; } };
    switch (op) {
      case 0: if (Room(m, c)) { if constexpr (kCopy) { const auto e = Elem(c, x); Inserted(a, m, a.insert(e), m.insert(MElem(c, x)), "insert"); } } break;
      case 1: case 2: if (Room(m, c)) { Inserted(a, m, a.insert(Elem(c, x)), m.insert(MElem(c, x)), "insert_moved"); } break;
      case 3: case 4: if (Room(m, c)) { if constexpr (kMap) { Inserted(a, m, a.emplace(Key(c), Val(x)), m.emplace(c, x), "emplace"); } else { Inserted(a, m, a.emplace(Key(c)), m.emplace(c), "emplace"); } } break;
      case 5: case 6: {
        std::vector<typename L::value_type> src; std::list<typename L::value_type> lst;
        M after = m; std::vector<std::pair<int, int>> add;
        for (std::size_t k = 0; k < n; ++k) { const int cc = NewCode(); add.emplace_back(cc, x + static_cast<int>(k)); log_ += "+" + std::to_string(cc); if constexpr (kMap) { after.emplace(cc, x + static_cast<int>(k)); } else { after.insert(cc); } }
        if (after.size() > N) { break; }
        if constexpr (kCopy) {
          for (const auto& [cc, xx] : add) { src.push_back(Elem(cc, xx)); lst.push_back(Elem(cc, xx)); }
          if (op == 5) { a.insert(src.begin(), src.end()); } else { a.insert(lst.begin(), lst.end()); }
          m = after;
        }
        break;
      }
      case 7: case 8: vh::Eq(key_ + ":erase_key", a.erase(Key(c)), m.erase(c), log_); break;
      case 9: if (p < m.size()) { const auto& e = key_at(p); const int cc = code_at(p); vh::Eq(key_ + ":erase_own_key", a.erase(e), m.erase(cc), log_); } break;
      case 10: if (p < m.size()) { const auto li = a.erase(at(a, p)); const auto mi = m.erase(at(m, p)); Position(a, m, li, mi, "erase"); } break;
      case 11: if (p < m.size()) { const auto li = a.erase(std::next(a.cbegin(), static_cast<std::ptrdiff_t>(p))); const auto mi = m.erase(at(m, p)); Position(a, m, li, mi, "erase_const"); } break;
      case 12: { const auto li = a.erase(std::next(a.cbegin(), static_cast<std::ptrdiff_t>(p)), std::next(a.cbegin(), static_cast<std::ptrdiff_t>(q))); const auto mi = m.erase(at(m, p), at(m, q)); Position(a, m, li, mi, "erase_range"); break; }
      case 13: if (r_.Chance(1, 4)) { a.clear(); m.clear(); } break;
      case 14: if constexpr (kCopy) { const L& o = *all[j]; auto w = std::make_unique<L>(o); all[i] = std::move(w); model[i] = M(model[j]); } break;
      case 15: if constexpr (kCopy) { const L& o = *all[j]; L& ret = (a = o); m = M(model[j]); vh::Check(&ret == &a, key_ + ":ret", log_); } break;
      case 16: { auto w = std::make_unique<L>(std::move(*all[j])); M y = std::move(model[j]); model[j].clear(); Emptied(*all[j]); all[i] = std::move(w); model[i] = std::move(y); break; }
      case 17: if (i != j) { L& ret = (a = std::move(*all[j])); m = std::move(model[j]); model[j].clear(); Emptied(*all[j]); vh::Check(&ret == &a, key_ + ":ret", log_); } break;
      case 18: case 19: a.swap(*all[j]); if (i != j) { m.swap(model[j]); } break;
      case 20: if constexpr (kCopy) {
          const L& o = a; Wide w(o); vh::Eq(key_ + ":wider", ShowLimited(w), ShowModel(m), log_); vh::Eq(key_ + ":wider_source", ShowLimited(a), ShowModel(m), log_);
          M y(m); for (int k = 0; k < 3; ++k) { const int cc = NewCode(); if constexpr (kMap) { w.emplace(Key(cc), Val(k)); y.emplace(cc, k); } else { w.emplace(Key(cc)); y.insert(cc); } }
          vh::Eq(key_ + ":wider", ShowLimited(w), ShowModel(y), log_);
          w = o; vh::Eq(key_ + ":wider", ShowLimited(w), ShowModel(m), log_);
        } break;
      case 21: if constexpr (kCopy && N >= 3 && !kMap) { const int d = NewCode(); a = L({Key(c), Key(d), Key(x % kCodes)}, a.key_comp()); m = M({c, d, x % kCodes}, m.key_comp()); } break;
      case 22: if constexpr (kCopy && N >= 3 && kMap) { const int d = NewCode(); a = L({{Key(c), Val(1)}, {Key(d), Val(2)}, {Key(x % kCodes), Val(3)}}, a.key_comp()); m = M({{c, 1}, {d, 2}, {x % kCodes, 3}}, m.key_comp()); } break;
      case 23: if constexpr (kCopy) {
          std::list<typename L::value_type> lst; M y(m.key_comp());
          for (std::size_t k = 0; k < n && k < N; ++k) { const int cc = NewCode(); log_ += "+" + std::to_string(cc); lst.push_back(Elem(cc, x + static_cast<int>(k))); y.insert(MElem(cc, x + static_cast<int>(k))); }
          all[i] = std::make_unique<L>(lst.begin(), lst.end(), a.key_comp()); m = y;
        } break;
      // Maps only.
      case 24: if constexpr (kMap) { if (Room(m, c)) { const K k = Key(c); auto& v = a[k]; auto& w = m[c]; vh::Eq(key_ + ":subscript", Code(v), w, log_); if (r_.Coin()) { v = Val(x); w = x; } } } break;
      case 25: if constexpr (kMap) { if (Room(m, c)) { auto& v = a[Key(c)]; auto& w = m[c]; vh::Eq(key_ + ":subscript", Code(v), w, log_); if (r_.Coin()) { v = Val(x); w = x; } } } break;
      case 26: if constexpr (kMap) { if (Room(m, c)) { const K k = Key(c); Inserted(a, m, a.try_emplace(k, Val(x)), m.try_emplace(c, x), "try_emplace"); } } break;
      case 27: if constexpr (kMap) { if (Room(m, c)) { Inserted(a, m, a.try_emplace(Key(c), Val(x)), m.try_emplace(c, x), "try_emplace"); } } break;
      case 28: if constexpr (kMap) { if (Room(m, c)) { const K k = Key(c); Inserted(a, m, a.insert_or_assign(k, Val(x)), m.insert_or_assign(c, x), "insert_or_assign"); } } break;
      case 29: if constexpr (kMap) { if (Room(m, c)) { Inserted(a, m, a.insert_or_assign(Key(c), Val(x)), m.insert_or_assign(c, x), "insert_or_assign"); } } break;
      case 30: if constexpr (kMap && kCopy) { if (Room(m, c) && p < m.size()) { const auto& v = at(a, p)->second; const int w = at(m, p)->second; Inserted(a, m, a.insert_or_assign(Key(c), v), m.insert_or_assign(c, w), "insert_or_assign_own"); } } break;
      case 31: if constexpr (kMap && kCopy) { if (Room(m, c) && p < m.size()) { const auto& v = at(a, p)->second; const int w = at(m, p)->second; const K k = Key(c); if (r_.Coin()) { Inserted(a, m, a.try_emplace(k, v), m.try_emplace(c, w), "try_emplace_own"); } else { Inserted(a, m, a.emplace(k, v), m.emplace(c, w), "emplace_own"); } } } break;
      case 32: if constexpr (kMap) { if (p < m.size()) { a.at(key_at(p)) = Val(x); m.at(code_at(p)) = x; } } break;
      case 33: if constexpr (kMap) { if (p < m.size()) { (*at(a, p)).second = Val(x); at(m, p)->second = x; } } break;
      case 34: if constexpr (kMap && N > 0) { if (m.contains(c)) { V v = Val(x); auto ret = a.try_emplace(Key(c), std::move(v)); vh::Check(!ret.second && Code(v) == x, key_ + ":try_emplace_moves", log_); } } break;  // std::map promises not to move.
      default: if constexpr (kCopy) { const L& o = a; a = o; } break;
    }
    vh::Count("op" + std::to_string(op));
  }
  void Emptied(const L& a) { vh::Check(a.empty() && a.size() == 0 && a.begin() == a.end(), key_ + ":moved_from", log_); }

  void Observe(L& a, M& m) {
    const L& c = a;
    vh::Eq(key_ + ":size", c.size(), m.size(), log_);
    vh::Eq(key_ + ":content", ShowLimited(c), ShowModel(m), log_);
    if (c.size() != m.size()) { return; }
    vh::Check(c.empty() == m.empty() && c.capacity() == N && c.max_size() == N, key_ + ":empty", log_);
    vh::Check(static_cast<std::size_t>(c.end() - c.begin()) == m.size() && static_cast<std::size_t>(a.end() - a.begin()) == m.size() && c.cbegin() == c.begin() && c.cend() == c.end(), key_ + ":iterators", log_);
    std::string want, got;
    for (auto it = m.rbegin(); it != m.rend(); ++it) { if constexpr (kMap) { want += std::to_string(it->first) + ","; } else { want += std::to_string(*it) + ","; } }
    for (auto it = c.rbegin(); it != c.rend(); ++it) { if constexpr (kMap) { got += std::to_string(Code(it->first)) + ","; } else { got += std::to_string(Code(*it)) + ","; } }
    vh::Eq(key_ + ":reverse", got, want, log_);
    for (std::size_t k = 0; k < m.size(); ++k) {
      vh::Check(&c.at_index(k) == &*std::next(c.begin(), static_cast<std::ptrdiff_t>(k)) && &a.at_index(k) == &*std::next(a.begin(), static_cast<std::ptrdiff_t>(k)), key_ + ":at_index", log_);
    }
  }
  void Lookup(L& a, std::vector<M>& model) {
    // The model of this one, by content address.
    M* pm = nullptr;
    for (std::size_t k = 0; k < model.size(); ++k) { if (ShowModel(model[k]) == ShowLimited(a) && SameCmp(model[k], a)) { pm = &model[k]; } }
    if (pm == nullptr) { vh::Fail(key_ + ":model", log_); return; }
    M& m = *pm;
    const L& c = a;
    const int code = NewCode();
    const K k = Key(code);
    const auto mi = [&](auto it) { return static_cast<std::ptrdiff_t>(std::distance(m.begin(), it)); };
    vh::Eq(key_ + ":find", a.find(k) - a.begin(), mi(m.find(code)), log_);
    vh::Eq(key_ + ":find", c.find(k) - c.begin(), mi(m.find(code)), log_);
    vh::Eq(key_ + ":contains", c.contains(k), m.contains(code), log_);
    vh::Eq(key_ + ":count", c.count(k), m.count(code), log_);
    vh::Eq(key_ + ":lower_bound", a.lower_bound(k) - a.begin(), mi(m.lower_bound(code)), log_);
    vh::Eq(key_ + ":lower_bound", c.lower_bound(k) - c.begin(), mi(m.lower_bound(code)), log_);
    vh::Eq(key_ + ":upper_bound", a.upper_bound(k) - a.begin(), mi(m.upper_bound(code)), log_);
    vh::Eq(key_ + ":upper_bound", c.upper_bound(k) - c.begin(), mi(m.upper_bound(code)), log_);
    const auto er = c.equal_range(k); const auto em = m.equal_range(code); const auto ea = a.equal_range(k);
    vh::Check(er.first - c.begin() == mi(em.first) && er.second - c.begin() == mi(em.second) && ea.first - a.begin() == mi(em.first) && ea.second - a.begin() == mi(em.second), key_ + ":equal_range", log_);
    const auto fm = m.find(code);
    vh::Eq(key_ + ":index_of", c.index_of(k), fm == m.end() ? L::npos : static_cast<std::size_t>(mi(fm)), log_);
    const K k2 = Key(NewCode());
    vh::Eq(key_ + ":key_comp", a.key_comp()(k, k2), m.key_comp()(code, Code(k2)), log_);
    if constexpr (kMap && kCopy) {
      if (fm != m.end()) { vh::Check(Code(a.at(k)) == fm->second && &c.at(k) == &a.at(k), key_ + ":at", log_); }
      vh::Eq(key_ + ":value_comp", a.value_comp()(Elem(code, 3), Elem(Code(k2), 1)), m.value_comp()({code, 3}, {Code(k2), 1}), log_);
    } else if constexpr (!kMap) {
      vh::Eq(key_ + ":value_comp", a.value_comp()(k, k2), m.value_comp()(code, Code(k2)), log_);
    }
  }
  static bool SameCmp(const M& m, const L& a) { if constexpr (requires { m.key_comp().width; }) { return m.key_comp().width == a.key_comp().width && m.key_comp().down == a.key_comp().down; } else { return true; } }
  void Compare(std::vector<std::unique_ptr<L>>& all, std::vector<M>& model) {
    const std::size_t i = r_.Below(kSets), j = r_.Below(kSets);
    const L &a = *all[i], &b = *all[j];
    const M &x = model[i], &y = model[j];
    vh::Check((a == b) == (x == y) && (a != b) == (x != y), key_ + ":equal", log_);
    vh::Check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), key_ + ":ordered", log_);
    vh::Check((a <=> b) == (x <=> y), key_ + ":three_way", log_);
    if constexpr (kCopy) { const Wide w(a); vh::Check((w == b) == (x == y) && (w < b) == (x < y) && (b < w) == (y < x) && (w <=> b) == (x <=> y), key_ + ":compare_wide", log_); }
  }

  vh::Rng& r_;
  std::string key_;
  std::string log_;
};
}  // namespace lo
#endif
