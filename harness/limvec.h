#ifndef VERIF_LIMVEC_H_
#define VERIF_LIMVEC_H_
// Random histories of a LimitedVector beside a std::vector of plain values.
#include <array>
#include <compare>
#include <forward_list>
#include <list>
#include <memory>
#include <string>
#include <vector>

#include "mbo/container/limited_vector.h"
#include "track.h"
#include "vh.h"

namespace lv {
using mbo::container::LimitedVector;

template <typename T> T Make(int v) {
  if constexpr (std::is_same_v<T, std::string>) { return std::string(static_cast<std::size_t>(v % 3 == 0 ? 40 : 1), 'a') + std::to_string(v); }
  else if constexpr (std::is_same_v<T, double>) { return v % 50 == 49 ? std::numeric_limits<double>::quiet_NaN() : v / 2.0; }
  else if constexpr (std::is_same_v<T, std::vector<int>>) { return std::vector<int>(static_cast<std::size_t>(v % 5), v); }
  else { return T(v); }
}
template <typename T> std::string Show(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) { return v.empty() ? "''" : v.substr(0, 1) + std::to_string(v.size()) + v.substr(v.size() - std::min<std::size_t>(v.size(), 3)); }
  else if constexpr (std::is_same_v<T, std::vector<int>>) { std::string s = "["; for (int x : v) { s += std::to_string(x) + " "; } return s + "]"; }
  else if constexpr (requires { v.v(); }) { return std::to_string(v.v()); }
  else { return std::to_string(v); }
}
template <typename V> std::string All(const V& v) { std::string s; for (const auto& x : v) { s += Show(x); s += ','; } return s; }

// M: the type the model holds (plain), with Make<M>; T: what the limited vector holds.
template <typename T, std::size_t N, typename M>
class History {
 public:
  using V = LimitedVector<T, N>;
  using Big = LimitedVector<T, N + 3>;
  static constexpr bool kCopy = std::is_copy_constructible_v<T>;
  static constexpr bool kAssign = std::is_move_assignable_v<T>;
  static constexpr std::size_t kVecs = 3;

  History(vh::Rng& r, std::string key) : r_(r), key_(std::move(key)) {}

  void Run() {
    trk::Reset();
    log_ = key_ + "<" + std::to_string(N) + ">:";
    {
      std::vector<std::unique_ptr<V>> v;
      std::vector<std::vector<M>> m(kVecs);
      for (std::size_t k = 0; k < kVecs; ++k) { v.push_back(std::make_unique<V>()); }
      const std::size_t steps = 1 + r_.Below(40);
      for (std::size_t s = 0; s < steps; ++s) {
        Step(v, m);
        Observe(v, m);
        trk::Clean(key_, log_);
        vh::Eval();
      }
    }
    trk::Done(key_, log_);
    vh::Distinct(vh::HashAll(log_));
  }

 private:
  int Val() { return static_cast<int>(r_.Below(60)); }
  void Step(std::vector<std::unique_ptr<V>>& v, std::vector<std::vector<M>>& m) {
    const std::size_t i = r_.Below(kVecs), j = r_.Below(kVecs);
    const int x = Val();
    const unsigned op = static_cast<unsigned>(r_.Below(34));
    V& a = *v[i];
    std::vector<M>& b = m[i];
    const std::size_t p = r_.Below(b.size() + 1), q = p + r_.Below(b.size() - p + 1), n = r_.Below(4);
    log_ += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(x) + "," + std::to_string(p) + "," + std::to_string(q) + "," + std::to_string(n) + ")";
    vh::Case(log_);
    const auto at = [](auto& c, std::size_t k) { return c.begin() + static_cast<std::ptrdiff_t>(k); };
    const auto pos = [&](auto it, std::size_t want) { vh::Eq(key_ + ":position", static_cast<std::size_t>(it - a.begin()), want, log_); };
    const bool room = b.size() < N;
    switch (op) {
      case 0: if constexpr (kCopy) { if (room) { const T t = Make<T>(x); auto& ret = a.push_back(t); b.push_back(Make<M>(x)); vh::Check(&ret == &a[a.size() - 1], key_ + ":ret", log_); vh::Eq(key_ + ":argument", Show(t), Show(Make<T>(x)), log_); } } break;
      case 1: if (room) { T t = Make<T>(x); auto& ret = a.push_back(std::move(t)); b.push_back(Make<M>(x)); vh::Check(&ret == &a.back(), key_ + ":ret", log_); } break;
      case 2: if (room) { auto& ret = a.emplace_back(Make<T>(x)); b.push_back(Make<M>(x)); vh::Check(&ret == &a.back(), key_ + ":ret", log_); } break;
      case 3: if constexpr (kCopy) { if (room && !b.empty()) { const std::size_t k = r_.Below(b.size()); a.push_back(a[k]); b.push_back(M(b[k])); } } break;  // An element of its own.
      case 4: if (!b.empty()) { a.pop_back(); b.pop_back(); } break;
      case 5: if constexpr (kCopy) { if (room) { const T t = Make<T>(x); pos(a.insert(at(a, p), t), p); b.insert(at(b, p), Make<M>(x)); vh::Eq(key_ + ":argument", Show(t), Show(Make<T>(x)), log_); } } break;
      case 6: if (room) { T t = Make<T>(x); pos(a.insert(at(a, p), std::move(t)), p); b.insert(at(b, p), Make<M>(x)); } break;
      case 7: if (room) { pos(a.emplace(at(a, p), Make<T>(x)), p); b.insert(at(b, p), Make<M>(x)); } break;
      case 8: if constexpr (kCopy) { if (room && !b.empty()) { const std::size_t k = r_.Below(b.size()); pos(a.insert(at(a, p), a[k]), p); b.insert(at(b, p), M(b[k])); } } break;
      case 9: if constexpr (kCopy) { if (room && !b.empty()) { const std::size_t k = r_.Below(b.size()); pos(a.emplace(at(a, p), a[k]), p); b.insert(at(b, p), M(b[k])); } } break;
      case 10: if constexpr (kCopy) { if (b.size() + n <= N) { const T t = Make<T>(x); pos(a.insert(at(a, p), n, t), p); b.insert(at(b, p), n, Make<M>(x)); } } break;
      case 11: if constexpr (kCopy) { if (b.size() + n <= N && !b.empty()) { const std::size_t k = r_.Below(b.size()); pos(a.insert(at(a, p), n, a[k]), p); b.insert(at(b, p), n, M(b[k])); } } break;
      case 12: case 13: if constexpr (kCopy) { if (b.size() + n <= N) {
          std::vector<T> src; std::list<T> lst; std::vector<M> add;
          for (std::size_t k = 0; k < n; ++k) { src.push_back(Make<T>(x + static_cast<int>(k))); lst.push_back(Make<T>(x + static_cast<int>(k))); add.push_back(Make<M>(x + static_cast<int>(k))); }
          if (op == 12) { pos(a.insert(at(a, p), src.begin(), src.end()), p); } else { pos(a.insert(at(a, p), lst.begin(), lst.end()), p); }
          b.insert(at(b, p), add.begin(), add.end());
          vh::Eq(key_ + ":argument", All(src) + All(lst), All(add) + All(add), log_);
        } } break;
      case 14: if constexpr (kCopy) { if (b.size() + 2 <= N) { pos(a.insert(at(a, p), {Make<T>(x), Make<T>(x + 1)}), p); b.insert(at(b, p), {Make<M>(x), Make<M>(x + 1)}); } } break;
      case 15: if (p < b.size()) { pos(a.erase(at(a, p)), p); b.erase(at(b, p)); } break;
      case 16: pos(a.erase(at(a, p), at(a, q)), p); b.erase(at(b, p), at(b, q)); break;
      case 17: if constexpr (kCopy) { if (n <= N) { const T t = Make<T>(x); a.assign(n, t); b.assign(n, Make<M>(x)); vh::Eq(key_ + ":argument", Show(t), Show(Make<T>(x)), log_); } } break;
      case 18: case 19: case 20: if constexpr (kCopy) { if (n <= N) {
          std::vector<T> src; std::forward_list<T> lst; std::vector<M> add;
          for (std::size_t k = n; k > 0; --k) { lst.push_front(Make<T>(x + static_cast<int>(k))); }
          for (std::size_t k = 1; k <= n; ++k) { src.push_back(Make<T>(x + static_cast<int>(k))); add.push_back(Make<M>(x + static_cast<int>(k))); }
          const auto& csrc = src;
          if (op == 18) { a.assign(src.begin(), src.end()); } else if (op == 19) { a.assign(lst.begin(), lst.end()); } else { a.assign(csrc.begin(), csrc.end()); }
          b = add;
          vh::Eq(key_ + ":argument", All(src) + All(lst), All(add) + All(add), log_);
        } } break;
      case 21: if constexpr (kCopy && N >= 2) { a.assign({Make<T>(x), Make<T>(x + 2)}); b.assign({Make<M>(x), Make<M>(x + 2)}); } break;
      case 22: if constexpr (kCopy && N >= 2) { a = {Make<T>(x), Make<T>(x + 3)}; b = {Make<M>(x), Make<M>(x + 3)}; } break;
      case 23: { const std::size_t to = r_.Below(N + 1); a.resize(to); while (b.size() > to) { b.pop_back(); } while (b.size() < to) { if constexpr (std::is_same_v<T, M>) { b.push_back(M{}); } else { b.push_back(Make<M>(0)); } } break; }
      case 24: if (r_.Chance(1, 3)) { a.clear(); b.clear(); } else { a.reserve(r_.Below(N + 1)); a.shrink_to_fit(); } break;
      case 25: if constexpr (kAssign) { if (i != j) { a.swap(*v[j]); b.swap(m[j]); } } break;
      case 26: if constexpr (kCopy) { const V& c = *v[j]; auto w = std::make_unique<V>(c); v[i] = std::move(w); m[i] = m[j]; } break;
      case 27: { auto w = std::make_unique<V>(std::move(*v[j])); std::vector<M> y = std::move(m[j]); m[j].clear(); Emptied(*v[j]); v[i] = std::move(w); m[i] = std::move(y); if (i != j) { break; } break; }
      case 28: if constexpr (kCopy) { const V& c = *v[j]; V& ret = (a = c); m[i] = std::vector<M>(m[j]); vh::Check(&ret == &a, key_ + ":ret", log_); } break;
      case 29: if (i != j) { V& ret = (a = std::move(*v[j])); b = std::move(m[j]); m[j].clear(); Emptied(*v[j]); vh::Check(&ret == &a, key_ + ":ret", log_); } break;
      case 30: if constexpr (kCopy) { const V& c = a; Big big(c); vh::Eq(key_ + ":wider", All(big), All(b), log_); vh::Eq(key_ + ":argument", All(a), All(b), log_); if (big.size() < N + 3) { big.emplace_back(Make<T>(x)); } const Big& cb = big; Big other; other.emplace_back(Make<T>(1)); other = cb; vh::Eq(key_ + ":wider", All(other), All(big), log_); other = c; vh::Eq(key_ + ":wider", All(other), All(b), log_); } break;
      case 31: { Big big(std::move(a)); vh::Eq(key_ + ":wider_moved", All(big), All(b), log_); b.clear(); Emptied(a); Big other; other.emplace_back(Make<T>(1)); other = std::move(*v[j]); vh::Eq(key_ + ":wider_moved", All(other), All(m[j]), log_); m[j].clear(); Emptied(*v[j]); break; }
      case 32: if constexpr (kAssign) { Big big; for (std::size_t k = 0; k < n && k < N; ++k) { big.emplace_back(Make<T>(x + static_cast<int>(k))); } big.swap(a); vh::Eq(key_ + ":swapped", All(big), All(b), log_); b.clear(); for (std::size_t k = 0; k < n && k < N; ++k) { b.push_back(Make<M>(x + static_cast<int>(k))); } } break;
      default: if constexpr (kAssign) { if (p < b.size()) { switch (r_.Below(4)) { case 0: a[p] = Make<T>(x); break; case 1: a.at(p) = Make<T>(x); break; case 2: *at(a, p) = Make<T>(x); break; default: *(a.rbegin() + static_cast<std::ptrdiff_t>(b.size() - 1 - p)) = Make<T>(x); break; } b[p] = Make<M>(x); } } break;
    }
    vh::Count("op" + std::to_string(op));
  }
  // std::vector is empty after it was moved from.
  void Emptied(const V& a) { vh::Check(a.empty() && a.size() == 0 && a.begin() == a.end(), key_ + ":moved_from", log_); }

  void Observe(std::vector<std::unique_ptr<V>>& v, std::vector<std::vector<M>>& m) {
    for (std::size_t k = 0; k < kVecs; ++k) {
      V& a = *v[k];
      const V& c = a;
      const std::vector<M>& b = m[k];
      vh::Eq(key_ + ":size", c.size(), b.size(), log_);
      vh::Eq(key_ + ":content", All(c), All(b), log_);
      if (c.size() != b.size()) { continue; }
      vh::Check(c.empty() == b.empty() && c.capacity() == N && c.max_size() == N, key_ + ":empty", log_);
      vh::Check(static_cast<std::size_t>(c.end() - c.begin()) == b.size() && c.cbegin() == c.begin() && c.cend() == c.end() && a.begin() == c.begin() && a.end() == c.end() && c.data() == c.begin(), key_ + ":iterators", log_);
      std::string back, want;
      for (auto it = b.rbegin(); it != b.rend(); ++it) { want += Show(*it) + ","; }
      for (auto it = a.rbegin(); it != a.rend(); ++it) { back += Show(*it) + ","; }
      vh::Eq(key_ + ":reverse", back, want, log_);
      back.clear();
      for (auto it = c.rbegin(); it != c.rend(); ++it) { back += Show(*it) + ","; }
      vh::Eq(key_ + ":reverse", back, want, log_);
      vh::Check(c.crbegin() == c.rbegin() && c.crend() == c.rend(), key_ + ":reverse", log_);
      for (std::size_t e = 0; e < b.size(); ++e) { vh::Check(&c[e] == c.begin() + e && &a[e] == &c[e] && &a.at(e) == &c[e] && &c.at(e) == &c[e], key_ + ":access", log_); }
      if (!b.empty()) { vh::Check(&c.front() == c.begin() && &a.front() == c.begin() && &c.back() == c.end() - 1 && &a.back() == c.end() - 1, key_ + ":ends", log_); }
    }
    const std::size_t i = r_.Below(kVecs), j = r_.Below(kVecs);
    Compare(*v[i], *v[j], m[i], m[j]);
  }
  template <typename A, typename B> void Compare(const A& a, const B& b, const std::vector<M>& x, const std::vector<M>& y) {
    vh::Check((a == b) == (x == y) && (a != b) == (x != y), key_ + ":equal", log_);
    vh::Check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), key_ + ":ordered", log_);
    vh::Check((a <=> b) == (x <=> y), key_ + ":three_way", log_);
    if constexpr (kCopy) { const LimitedVector<T, N + 5> wide(a); vh::Check((wide == b) == (x == y) && (wide < b) == (x < y) && (b < wide) == (y < x) && (wide <=> b) == (x <=> y), key_ + ":compare_wide", log_); }
  }

  vh::Rng& r_;
  std::string key_;
  std::string log_;
};
}  // namespace lv
#endif
