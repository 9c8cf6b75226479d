// VH-SHARDS: 4
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random histories (up to 40 steps) of construction, in-place construction, emplace, copy, move, assignment, swap and writing through every accessor, over several Required (of copyable, move-only, non-assignable, const (compared only), string and pair types) and several RefWrap (mutable and const), compared after each step with a model that holds plain values or object identities; every object's lifetime is tracked by address. A case is one history.
#include <map>
#include <memory>
#include <optional>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"
#include "track.h"
#include "vh.h"

namespace {
using mbo::types::RefWrap;
using mbo::types::Required;

template <typename T>
struct Wrapped {
  std::unique_ptr<Required<T>> req;
  int want = 0;
};
template <typename T>
void RequiredHistory(vh::Rng& r, const char* name) {
  trk::Reset();
  std::string log = std::string(name) + ":";
  const std::string key = std::string("required:") + name;
  {
    std::vector<Wrapped<T>> w(3);
    auto make = [&](Wrapped<T>& x) {
      const int v = static_cast<int>(r.Below(100));
      switch (r.Below(3)) {
        case 0: x.req = std::make_unique<Required<T>>(T(v)); break;
        case 1: x.req = std::make_unique<Required<T>>(std::in_place, v); break;
        default: x.req = std::make_unique<Required<T>>(v); break;
      }
      x.want = v;
    };
    for (auto& x : w) { make(x); }
    const std::size_t steps = 1 + r.Below(40);
    for (std::size_t s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(3), j = r.Below(3);
      const int v = static_cast<int>(r.Below(100));
      const unsigned op = static_cast<unsigned>(r.Below(12));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + ")";
      vh::Case(log);
      Required<T>& a = *w[i].req;
      Required<T>& b = *w[j].req;
      vh::Count("op" + std::to_string(op));
      switch (op) {
        case 0: a.emplace(T(v)); w[i].want = v; break;
        case 1: a.emplace(v); w[i].want = v; break;
        case 2: { Required<T>& ret = a.emplace(v); w[i].want = v; vh::Check(&ret == &a, key + ":ret", log); break; }
        case 3: make(w[i]); break;
        case 4: if constexpr (std::is_copy_constructible_v<T>) { const Required<T>& cb = b; auto n = std::make_unique<Required<T>>(cb); w[i].want = w[j].want; w[i].req = std::move(n); } break;
        case 5: if (i != j) { auto n = std::make_unique<Required<T>>(std::move(b)); w[i].want = w[j].want; w[i].req = std::move(n); make(w[j]); } break;
        case 6: if constexpr (std::is_copy_assignable_v<T>) { a = b; w[i].want = w[j].want; } break;
        case 7: if constexpr (std::is_move_assignable_v<T>) { if (i != j) { a = std::move(b); w[i].want = w[j].want; b.emplace(v); w[j].want = v; } } break;
        case 8: if constexpr (std::is_move_assignable_v<T>) { std::swap(a, b); std::swap(w[i].want, w[j].want); } break;
        case 9: if constexpr (std::is_move_assignable_v<T>) {
          switch (r.Below(4)) {
            case 0: a.get() = T(v); break;
            case 1: *a = T(v); break;
            case 2: *a.operator->() = T(v); break;
            default: { T& ref = a; ref = T(v); break; }
          }
          w[i].want = v;
        } break;
        case 10: if (i != j) { a.emplace(std::move(*b)); w[i].want = w[j].want; b.emplace(v); w[j].want = v; } break;  // From another wrapper's value.
        default: if constexpr (std::is_copy_constructible_v<T>) { a.emplace(*b); w[i].want = w[j].want; } break;           // Possibly its own value.
      }
      vh::Eval();
      for (std::size_t k = 0; k < 3; ++k) {
        Required<T>& x = *w[k].req;
        const Required<T>& c = x;
        const T want(w[k].want);
        const T& ref = x;
        const T& cref = c;
        const bool ok = x.get() == want && c.get() == want && *x == want && *c == want && *x.operator->() == want && *c.operator->() == want && ref == want && cref == want && &ref == &x.get() && &cref == &*c;
        vh::Check(ok, key + ":value", [&] { return "wrapper " + std::to_string(k) + " does not hold " + std::to_string(w[k].want) + " after" + log; });
        if constexpr (std::three_way_comparable<T>) {
          for (std::size_t l = 0; l < 3; ++l) {
            const T other(w[l].want);
            const auto o = T(w[k].want) <=> other;
            vh::Check((x <=> other) == o && (c < other) == (o < 0) && (other < c) == (o > 0) && (other >= x) == (o <= 0), key + ":compare:value", log);
            const Required<T>& y = *w[l].req;
            vh::Check((c <=> y) == o && (x < y) == (o < 0) && (x >= y) == (o >= 0), key + ":compare", log);
          }
        }
      }
      if (!trk::Clean(key, log)) { break; }
    }
    w.clear();
  }
  trk::Done(key, log);
  vh::Distinct(vh::HashOf(log));
}

void RefHistory(vh::Rng& r) {
  trk::Reset();
  std::string log = "ref:";
  {
    std::vector<trk::Full> pool;
    pool.reserve(5);
    std::vector<int> val;
    for (int i = 0; i < 5; ++i) { val.push_back(static_cast<int>(r.Below(4))); pool.emplace_back(val.back()); }
    std::vector<RefWrap<trk::Full>> w;
    std::vector<RefWrap<const trk::Full>> cw;
    std::vector<std::size_t> m, cm;
    for (int i = 0; i < 3; ++i) { m.push_back(r.Below(5)); w.emplace_back(pool[m.back()]); cm.push_back(r.Below(5)); cw.emplace_back(pool[cm.back()]); }
    const auto built = trk::R().constructed, died = trk::R().destroyed, assigned = trk::R().assigns;
    std::uint64_t own = 0, own_assign = 0;
    const std::size_t steps = 1 + r.Below(40);
    for (std::size_t s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(3), j = r.Below(3), p = r.Below(5);
      const int v = static_cast<int>(r.Below(4));
      const unsigned op = static_cast<unsigned>(r.Below(10));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(p) + "," + std::to_string(v) + ")";
      vh::Case(log);
      vh::Count("ref_op" + std::to_string(op));
      switch (op) {
        case 0: { auto& ret = (w[i] = pool[p]); m[i] = p; vh::Check(&ret == &w[i], "refwrap:ret", log); break; }
        case 1: w[i] = w[j]; m[i] = m[j]; break;
        case 2: w[i] = std::move(w[j]); m[i] = m[j]; break;
        case 3: std::swap(w[i], w[j]); std::swap(m[i], m[j]); break;
        case 4: { RefWrap<trk::Full> n(w[j]); w[i] = n; m[i] = m[j]; break; }
        case 5: cw[i] = pool[p]; cm[i] = p; break;
        case 6: cw[i] = cw[j]; cm[i] = cm[j]; break;
        case 7: cw[i] = w[j].get(); cm[i] = m[j]; break;
        case 8: {  // Write through the wrapper: the object changes, the binding does not.
          trk::Full n(v);
          ++own; ++own_assign;
          switch (r.Below(4)) {
            case 0: w[i].get() = n; break;
            case 1: *w[i] = n; break;
            case 2: *w[i].operator->() = n; break;
            default: { trk::Full& ref = w[i]; ref = n; break; }
          }
          val[m[i]] = v;
          break;
        }
        default: { trk::Full n(v); ++own; ++own_assign; pool[p] = n; val[p] = v; break; }  // The object changes by itself.
      }
      vh::Eval();
      for (std::size_t k = 0; k < 3; ++k) {
        RefWrap<trk::Full>& x = w[k];
        const RefWrap<trk::Full>& c = x;
        trk::Full& ref = x;
        const trk::Full& cref = c;
        trk::Full* const want = &pool[m[k]];
        vh::Check(&x.get() == want && &c.get() == want && &*x == want && &*c == want && x.operator->() == want && c.operator->() == want && &ref == want && &cref == want, "refwrap:binding", log);
        vh::Check(x->v() == val[m[k]], "refwrap:value", log);
        const RefWrap<const trk::Full>& q = cw[k];
        vh::Check(&q.get() == &pool[cm[k]] && &cw[k].get() == &pool[cm[k]] && q->v() == val[cm[k]], "refwrap:const:binding", log);
        for (std::size_t l = 0; l < 3; ++l) {
          const auto o = val[m[k]] <=> val[m[l]];
          vh::Check((c <=> w[l]) == o && (x < w[l]) == (o < 0) && (x >= w[l]) == (o >= 0), "refwrap:compare", log);
          const auto oc = val[m[k]] <=> val[cm[l]];
          vh::Check((c <=> cw[l]) == oc && (c <=> cw[l].get()) == oc && (cw[l] > x.get()) == (oc < 0), "refwrap:compare:mixed", log);
          for (std::size_t pp = 0; pp < 5; ++pp) {
            const auto ov = val[m[k]] <=> val[pp];
            vh::Check((c <=> pool[pp]) == ov && (pool[pp] < c) == (ov > 0) && (x <= pool[pp]) == (ov <= 0), "refwrap:compare:value", log);
          }
        }
      }
      if (!trk::Clean("refwrap", log)) { break; }
    }
    vh::Check(trk::R().constructed - built == own && trk::R().destroyed - died == own && trk::R().assigns - assigned == own_assign, "refwrap:copies", [&] { return "the wrapper created or assigned objects: " + log; });
  }
  trk::Done("refwrap", log);
  vh::Distinct(vh::HashOf(log));
}

struct Pair2 { int a; int b; auto operator<=>(const Pair2&) const = default; };
}  // namespace

void VhMain() {
  vh::Section("required", 3000, 200000, [](vh::Rng& r, std::uint64_t i) {
    switch (i % 5) {
      case 0: RequiredHistory<trk::Full>(r, "full"); break;
      case 1: RequiredHistory<trk::MoveOnly>(r, "move_only"); break;
      case 2: RequiredHistory<trk::Const>(r, "not_assignable"); break;
      case 3: RequiredHistory<trk::MoveConst>(r, "move_constructible_only"); break;
      default: RequiredHistory<int>(r, "int"); break;
    }
  });
  vh::Section("refwrap", 1500, 100000, [](vh::Rng& r, std::uint64_t) { RefHistory(r); });
  vh::Section("values", 1500, 40000, [](vh::Rng& r, std::uint64_t) {
    const int a = static_cast<int>(r.Below(5)), b = static_cast<int>(r.Below(5));
    const long c = static_cast<long>(r.Below(5));
    const Required<int> ra(a), rb(b);
    const Required<long> rc(c);
    vh::Check((ra <=> rc) == (a <=> c) && (rc < rb) == (c < b) && (ra == c) == (a == c) && (ra != rb) == (a != b), "required:mixed", std::to_string(a) + std::to_string(b) + std::to_string(c));
    int xa = a, xb = b;
    long xc = c;
    const RefWrap<int> wa(xa), wb(xb);
    const RefWrap<long> wc(xc);
    vh::Check((wa <=> wc) == (a <=> c) && (wc < wb) == (c < b) && (wa == c) == (a == c) && (wa != wb) == (a != b) && (wa == wb) == (a == b), "refwrap:mixed", std::to_string(a) + std::to_string(b) + std::to_string(c));
    vh::Check(absl::HashOf(ra) == absl::HashOf(rb) || a != b, "required:hash", "");
    vh::Check(absl::HashOf(wa) == absl::HashOf(wb) || a != b, "refwrap:hash", "");
    vh::Check((absl::HashOf(wa) != absl::HashOf(wb) && absl::HashOf(ra) != absl::HashOf(rb)) || a == b, "hash:distinct", "");
    vh::Check(absl::StrCat(ra) == std::to_string(a) && absl::StrCat(wa) == std::to_string(a), "stringify", std::to_string(a));
    const std::string s = r.Bytes(r.Below(40)), t = r.Coin() ? s : r.Bytes(r.Below(40));
    Required<std::string> rs(s);
    const Required<std::string> rt(t);
    vh::Check((rs <=> rt) == (s <=> t) && (rs <=> t) == (s <=> t) && rs->size() == s.size() && *rs == s && (rs < t) == (s < t), "required:string", vh::Hex(s));
    vh::Check(absl::StrCat(rt) == t, "stringify:string", vh::Hex(t));
    rs.emplace(t.size(), 'x');
    vh::Check(*rs == std::string(t.size(), 'x'), "required:string:emplace", "");
    rs.emplace(*rs);
    vh::Check(*rs == std::string(t.size(), 'x'), "required:string:self", "");
    std::string st = t;
    const RefWrap<std::string> ws(st);
    vh::Check((ws <=> s) == (t <=> s) && ws->size() == t.size() && absl::StrCat(ws) == t && (s < ws) == (s < t), "refwrap:string", vh::Hex(t));
    const double d1 = r.Of({0.0, -0.0, 1.5, -2.0, std::numeric_limits<double>::quiet_NaN()}), d2 = r.Of({0.0, -0.0, 1.5, -2.0});
    vh::Check((Required<double>(d1) <=> d2) == (d1 <=> d2) && (Required<double>(d1) == d2) == (d1 == d2), "required:double", std::to_string(d1));
    double y1 = d1, y2 = d2;
    vh::Check((RefWrap<double>(y1) <=> y2) == (d1 <=> d2) && (RefWrap<double>(y1) < RefWrap<double>(y2)) == (d1 < d2), "refwrap:double", std::to_string(d1));
    const Required<const int> rk(a);
    vh::Check((rk <=> b) == (a <=> b) && *rk == a && (rk == b) == (a == b), "required:const", "");
    Required<Pair2> p(std::in_place, Pair2{a, b});
    p->a = b;
    vh::Check(p->a == b && (*p).b == b, "required:struct", "");
    p.emplace(Pair2{b, a});
    vh::Check(p.get() == Pair2{b, a}, "required:struct:emplace", "");
    vh::Eval(10);
    vh::Distinct(vh::HashAll(s + "|" + t, a, b, c));
  });
  trk::Report();
}
