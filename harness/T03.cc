// VH-SHARDS: 4
// VH-SRC: mbo/log/demangle.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random histories (up to 50 steps) of construction, copy, move, self-assignment, assignment of values, lvalues, nullopt and other types, emplace, reset, set_ref, as_data and writing through every accessor, over several OptionalDataOrRef (mutable and const references; copyable, move-only, string and floating point data) and OptionalRef, compared after every step with a model that holds nothing, a value or the identity of one of several outside objects; every object's lifetime is tracked; all comparisons (with each other, with nullopt and with values), hashes and formatting follow from the model; an access while empty must stop the program. A case is one history.
#include <memory>
#include <optional>
#include <string>

#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "track.h"
#include "vh.h"

namespace {
using mbo::types::OptionalDataOrRef;
using mbo::types::OptionalRef;
using trk::Full;

enum class Kind { kNone, kData, kRef };
struct Model { Kind kind = Kind::kNone; int value = 0; std::size_t ref = 0; };

int V(const Full& f) { return f.v(); }
int V(const trk::MoveOnly& f) { return f.v(); }
int V(const std::string& s) { return s.size() < 3 ? -5 : std::stoi(s.substr(s.rfind('x') + 1)); }
int V(double d) { return static_cast<int>(d); }
int V(int d) { return d; }
template <typename T> T Mk(int v) {
  if constexpr (std::is_same_v<T, std::string>) { return std::string(static_cast<std::size_t>(3 + 20 * (v % 2)), 'x') + std::to_string(v); } else { return T(v); }
}
// The histories order values 10..99 so that strings of different lengths order by Mk, not by number: use this one.
template <typename T> int Cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }

template <typename A, typename B> void Comparisons(const std::string& key, const A& a, const B& b, int want, const std::string& ctx) {
  vh::Eq(key + ":==", a == b, want == 0, ctx); vh::Eq(key + ":!=", a != b, want != 0, ctx);
  vh::Eq(key + ":<", a < b, want < 0, ctx); vh::Eq(key + ":>", a > b, want > 0, ctx);
  vh::Eq(key + ":<=", a <= b, want <= 0, ctx); vh::Eq(key + ":>=", a >= b, want >= 0, ctx);
  const auto o = a <=> b;
  vh::Check((o < 0) == (want < 0) && (o > 0) == (want > 0) && (o == 0) == (want == 0), key + ":<=>", ctx);
}

template <typename T, typename RefT> void DataHistory(vh::Rng& r, const std::string& name) {
  using Opt = OptionalDataOrRef<T, RefT>;
  constexpr bool kConst = std::is_const_v<RefT>;
  constexpr bool kCopy = std::is_copy_constructible_v<T>;
  trk::Reset();
  std::string log;
  {
    std::vector<std::unique_ptr<T>> pool;
    std::vector<int> pooled;
    for (int k = 0; k < 3; ++k) { pooled.push_back(10 + static_cast<int>(r.Below(90))); pool.push_back(std::make_unique<T>(Mk<T>(pooled.back()))); }
    std::vector<std::unique_ptr<Opt>> w;
    std::vector<Model> m(3);
    for (int k = 0; k < 3; ++k) { w.push_back(std::make_unique<Opt>()); }
    for (std::size_t steps = 1 + r.Below(50), s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(3), j = r.Below(3), p = r.Below(3);
      const int v = 10 + static_cast<int>(r.Below(90));
      const unsigned op = static_cast<unsigned>(r.Below(22));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(p) + "," + std::to_string(v) + ")";
      vh::Case(name + log);
      vh::Count("op" + std::to_string(op));
      Opt& a = *w[i];
      const Model before = m[j];
      const void* ret = &a;
      switch (op) {
        case 0: w[i] = std::make_unique<Opt>(Mk<T>(v)); m[i] = {Kind::kData, v, 0}; break;
        case 1: w[i] = std::make_unique<Opt>(static_cast<RefT&>(*pool[p])); m[i] = {Kind::kRef, 0, p}; break;
        case 2: w[i] = std::make_unique<Opt>(std::nullopt); m[i] = {}; break;
        case 3: if constexpr (kCopy) { auto n = std::make_unique<Opt>(std::as_const(*w[j])); m[i] = m[j]; w[i] = std::move(n); } break;
        case 4: { auto n = std::make_unique<Opt>(std::move(*w[j])); if (m[j].kind == Kind::kData) { m[j] = {}; } if (i != j) { m[i] = before; w[i] = std::move(n); } else { m[i] = before; w[i] = std::move(n); } break; }
        case 5: if constexpr (kCopy) { ret = &(a = std::as_const(*w[j])); m[i] = m[j]; } break;
        case 6: { ret = &(a = std::move(*w[j])); if (i != j) { m[i] = before; if (before.kind == Kind::kData) { m[j] = {}; } } break; }
        case 7: ret = &(a = std::nullopt); m[i] = {}; break;
        case 8: ret = &(a = Mk<T>(v)); m[i] = {Kind::kData, v, 0}; break;
        case 9: ret = &a.reset(); m[i] = {}; break;
        case 10: ret = &a.set_ref(*pool[p]); m[i] = {Kind::kRef, 0, p}; break;
        case 11: ret = &a.emplace(Mk<T>(v)); m[i] = {Kind::kData, v, 0}; break;
        case 12: { if constexpr (kCopy) { T& d = a.as_data(Mk<T>(v)); if (m[i].kind == Kind::kNone) { m[i] = {Kind::kData, v, 0}; } else if (m[i].kind == Kind::kRef) { m[i] = {Kind::kData, pooled[m[i].ref], 0}; } vh::Check(&d == &a.value(), name + ":as_data", log); } break; }
        case 13: if constexpr (kCopy && std::is_default_constructible_v<T>) { if (m[i].kind != Kind::kNone) { T& d = a.as_data(); if (m[i].kind == Kind::kRef) { m[i] = {Kind::kData, pooled[m[i].ref], 0}; } if (r.Coin()) { d = Mk<T>(v); m[i].value = v; } } } break;
        case 14: if constexpr (!kConst) { if (m[i].kind != Kind::kNone) { switch (r.Below(3)) { case 0: *a = Mk<T>(v); break; case 1: a.value() = Mk<T>(v); break; default: *a.operator->() = Mk<T>(v); break; } if (m[i].kind == Kind::kData) { m[i].value = v; } else { pooled[m[i].ref] = v; } } } break;
        // An lvalue is assigned to the value held or referred to, if any, and copied otherwise.
        case 15: if constexpr (!kConst && kCopy) { const T x = Mk<T>(v); ret = &(a = x); if (m[i].kind == Kind::kRef) { pooled[m[i].ref] = v; } else { m[i] = {Kind::kData, v, 0}; } } break;
        case 16: if constexpr (!kConst && kCopy) { T x = Mk<T>(v); ret = &(a = x); if (m[i].kind == Kind::kRef) { pooled[m[i].ref] = v; } else { m[i] = {Kind::kData, v, 0}; } vh::Eq(name + ":source", V(x), v, log); } break;
        case 17: *pool[p] = Mk<T>(v); pooled[p] = v; break;
        case 18: if constexpr (std::is_same_v<T, std::string>) { const std::string x = Mk<T>(v); if constexpr (!kConst) { if (r.Coin()) { ret = &(a = std::string_view(x)); m[i] = {Kind::kData, v, 0}; } else { const char* c = x.c_str(); ret = &(a = c); if (m[i].kind == Kind::kRef) { pooled[m[i].ref] = v; } else { m[i] = {Kind::kData, v, 0}; } } } } break;
        case 19: if constexpr (std::is_same_v<T, std::string>) { ret = &a.emplace(static_cast<std::size_t>(3 + 20 * (v % 2)), 'x'); a.as_data() += std::to_string(v); m[i] = {Kind::kData, v, 0}; } break;
        case 20: if constexpr (kCopy) { auto n = a; vh::Check(&n.reset() == &n && n.HoldsNullopt(), name + ":copy_reset", log); } break;  // The original is left alone.
        default: if (m[i].kind == Kind::kRef && p != m[i].ref) { ret = &a.set_ref(*pool[p]); m[i].ref = p; } break;
      }
      if (op != 3 && op != 4 && op > 2) { vh::Check(ret == &a, name + ":returns_itself", "operation " + std::to_string(op) + " " + log); }
      bool ok = trk::Clean(name, log);
      for (std::size_t k = 0; k < 3 && ok; ++k) {
        Opt& o = *w[k]; const Opt& c = o;
        const Model& x = m[k];
        const std::string ctx = name + " object " + std::to_string(k) + " after" + log;
        ok &= vh::Eq(name + ":has_value", c.has_value(), x.kind != Kind::kNone, ctx) & vh::Eq(name + ":bool", static_cast<bool>(c), x.kind != Kind::kNone, ctx);
        ok &= vh::Eq(name + ":holds_data", c.HoldsData(), x.kind == Kind::kData, ctx) & vh::Eq(name + ":holds_ref", c.HoldsReference(), x.kind == Kind::kRef, ctx) & vh::Eq(name + ":holds_none", c.HoldsNullopt(), x.kind == Kind::kNone, ctx);
        if (!ok) { break; }
        if (x.kind != Kind::kNone) {
          const int want = x.kind == Kind::kData ? x.value : pooled[x.ref];
          ok &= vh::Eq(name + ":value", V(c.value()), want, ctx) & vh::Eq(name + ":deref", V(*c), want, ctx) & vh::Eq(name + ":arrow", V(*c.operator->()), want, ctx);
          vh::Check(&c.value() == &o.value() && &*o == &*c && &*c == &c.value() && o.operator->() == &*c, name + ":same_object", ctx);
          if (x.kind == Kind::kRef) { ok &= vh::Check(&c.value() == pool[x.ref].get(), name + ":refers", ctx); }
          else { const auto* at = reinterpret_cast<const unsigned char*>(&c.value()); const auto* self = reinterpret_cast<const unsigned char*>(&c); ok &= vh::Check(at >= self && at < self + sizeof(Opt), name + ":owns", ctx); }
        }
        if constexpr (kCopy) { const T def = Mk<T>(v); const auto& g = c.get(def); vh::Check(x.kind == Kind::kNone ? &g == &def : &g == &c.value(), name + ":get", ctx); }
      }
      for (std::size_t k = 0; k < 3; ++k) { ok &= vh::Eq(name + ":outside", V(*pool[k]), pooled[k], name + log); }
      ok &= trk::Clean(name, log);
      if (!ok) { break; }
      // Relations of two objects.
      const auto val = [&](std::size_t k) { return m[k].kind == Kind::kData ? Mk<T>(m[k].value) : Mk<T>(pooled[m[k].ref]); };
      const int want = m[i].kind == Kind::kNone ? (m[j].kind == Kind::kNone ? 0 : -1) : m[j].kind == Kind::kNone ? 1 : Cmp(val(i), val(j));
      const std::string ctx = name + " " + std::to_string(i) + " and " + std::to_string(j) + " after" + log;
      Comparisons(name, *w[i], *w[j], want, ctx);
      Comparisons(name + ":nullopt", *w[i], std::nullopt, m[i].kind == Kind::kNone ? 0 : 1, ctx);
      const T x = Mk<T>(v);
      Comparisons(name + ":value", *w[i], x, m[i].kind == Kind::kNone ? -1 : Cmp(val(i), x), ctx);
      if constexpr (std::is_arithmetic_v<std::remove_const_t<decltype(x)>> || std::is_same_v<std::remove_const_t<decltype(x)>, std::string>) {
        if (want == 0) { vh::Eq(name + ":hash", absl::HashOf(*w[i]), absl::HashOf(*w[j]), ctx); }
        else { vh::Check(absl::HashOf(*w[i]) != absl::HashOf(*w[j]), name + ":hash_differs", ctx); }
        vh::Eq(name + ":string", absl::StrCat(*w[i]), m[i].kind == Kind::kNone ? "std::nullopt" : absl::StrCat(val(i)), ctx);
      }
    }
  }
  trk::Done(name, log);
  vh::Eval();
  vh::Distinct(vh::HashAll(name, log));
}

template <typename T> void RefHistory(vh::Rng& r, const std::string& name) {
  using D = std::remove_const_t<T>;
  using Opt = OptionalRef<T>;
  trk::Reset();
  std::string log;
  {
    std::vector<std::unique_ptr<D>> pool;
    std::vector<int> pooled;
    for (int k = 0; k < 3; ++k) { pooled.push_back(10 + static_cast<int>(r.Below(4))); pool.push_back(std::make_unique<D>(Mk<D>(pooled.back()))); }
    std::vector<std::unique_ptr<Opt>> w;
    std::vector<Model> m(3);
    for (int k = 0; k < 3; ++k) { w.push_back(std::make_unique<Opt>()); }
    for (std::size_t steps = 1 + r.Below(40), s = 0; s < steps; ++s) {
      const std::size_t i = r.Below(3), j = r.Below(3), p = r.Below(3);
      const int v = 10 + static_cast<int>(r.Below(4));
      const unsigned op = static_cast<unsigned>(r.Below(11));
      log += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(p) + "," + std::to_string(v) + ")";
      vh::Case(name + log);
      Opt& a = *w[i];
      const void* ret = &a;
      const bool has = m[i].kind == Kind::kRef;
      switch (op) {
        case 0: w[i] = std::make_unique<Opt>(static_cast<T&>(*pool[p])); m[i] = {Kind::kRef, 0, p}; break;
        case 1: w[i] = std::make_unique<Opt>(std::nullopt); m[i] = {}; break;
        case 2: { auto n = std::make_unique<Opt>(std::as_const(*w[j])); m[i] = m[j]; w[i] = std::move(n); break; }
        case 3: { auto n = std::make_unique<Opt>(std::move(*w[j])); m[i] = m[j]; w[i] = std::move(n); break; }
        case 4: ret = &a.reset(); m[i] = {}; break;
        case 5: case 6: ret = &a.set_ref(*pool[p]); m[i] = {Kind::kRef, 0, p}; break;
        case 7: if constexpr (!std::is_const_v<T>) { if (has) { ret = &(a = Mk<D>(v)); pooled[m[i].ref] = v; } } break;
        case 8: if constexpr (!std::is_const_v<T>) { if (has) { const D x = Mk<D>(v); ret = &(a = x); pooled[m[i].ref] = v; } } break;
        case 9: if constexpr (!std::is_const_v<T>) { if (has) { switch (r.Below(3)) { case 0: *a = Mk<D>(v); break; case 1: a.value() = Mk<D>(v); break; default: *a.operator->() = Mk<D>(v); break; } pooled[m[i].ref] = v; } } break;
        default: *pool[p] = Mk<D>(v); pooled[p] = v; break;
      }
      if (op > 3) { vh::Check(ret == &a, name + ":returns_itself", log); }
      bool ok = trk::Clean(name, log);
      for (std::size_t k = 0; k < 3; ++k) {
        Opt& o = *w[k]; const Opt& c = o;
        const std::string ctx = name + " object " + std::to_string(k) + " after" + log;
        ok &= vh::Eq(name + ":has_value", c.has_value(), m[k].kind != Kind::kNone, ctx) & vh::Eq(name + ":bool", static_cast<bool>(c), m[k].kind != Kind::kNone, ctx);
        if (ok && m[k].kind == Kind::kRef) { const D* at = pool[m[k].ref].get(); vh::Check(&c.value() == at && &o.value() == at && &*c == at && &*o == at && c.operator->() == at && o.operator->() == at, name + ":refers", ctx); }
        ok &= vh::Eq(name + ":outside", V(*pool[k]), pooled[k], ctx);
      }
      if (!ok) { break; }
      const auto val = [&](std::size_t k) { return Mk<D>(pooled[m[k].ref]); };
      const int want = m[i].kind == Kind::kNone ? (m[j].kind == Kind::kNone ? 0 : -1) : m[j].kind == Kind::kNone ? 1 : Cmp(val(i), val(j));
      const std::string ctx = name + " " + std::to_string(i) + " and " + std::to_string(j) + " after" + log;
      Comparisons(name, *w[i], *w[j], want, ctx);
      Comparisons(name + ":nullopt", *w[i], std::nullopt, m[i].kind == Kind::kNone ? 0 : 1, ctx);
      const D x = Mk<D>(v);
      Comparisons(name + ":value", *w[i], x, m[i].kind == Kind::kNone ? -1 : Cmp(val(i), x), ctx);
      if constexpr (std::is_arithmetic_v<std::remove_const_t<decltype(x)>> || std::is_same_v<std::remove_const_t<decltype(x)>, std::string>) {
        if (want == 0) { vh::Eq(name + ":hash", absl::HashOf(*w[i]), absl::HashOf(*w[j]), ctx); }
        else { vh::Check(absl::HashOf(*w[i]) != absl::HashOf(*w[j]), name + ":hash_differs", ctx); }
        vh::Eq(name + ":string", absl::StrCat(*w[i]), m[i].kind == Kind::kNone ? "std::nullopt" : absl::StrCat(val(i)), ctx);
      }
    }
  }
  trk::Done(name, log);
  vh::Eval();
  vh::Distinct(vh::HashAll(name, log));
}

// A value that is only known at compile time, with all the operations that are.
constexpr int Compiled() {
  int a = 3;
  OptionalDataOrRef<int> x(a);
  OptionalDataOrRef<int> y(5);
  OptionalDataOrRef<int> z = y;
  if (!x.HoldsReference() || !y.HoldsData() || z != y || !(x < y)) { return 1; }
  a = 7;
  if (*x != 7 || !(x > y)) { return 2; }
  x.as_data() = 9;
  if (a != 7 || *x != 9) { return 3; }
  z = std::move(x);
  if (*z != 9 || x.has_value()) { return 4; }  // NOLINT
  z = std::nullopt;
  if (z != std::nullopt || z.get(11) != 11) { return 5; }
  z.set_ref(a);
  z.value() = 12;
  if (a != 12) { return 6; }
  OptionalRef<int> r(a);
  r = 13;
  OptionalRef<int> q(r);
  if (a != 13 || q != r || q.reset().has_value() || !(q < r)) { return 7; }
  return 0;
}
}  // namespace

void VhMain() {
  vh::Section("data", 4000, 200000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(8)) {
      case 0: DataHistory<Full, Full>(r, "obj"); break;
      case 1: DataHistory<Full, const Full>(r, "const_ref_obj"); break;
      case 2: DataHistory<trk::MoveOnly, trk::MoveOnly>(r, "move_only"); break;
      case 3: DataHistory<std::string, std::string>(r, "string"); break;
      case 4: DataHistory<std::string, const std::string>(r, "const_ref_string"); break;
      case 5: DataHistory<double, double>(r, "double"); break;
      case 6: DataHistory<trk::MoveOnly, const trk::MoveOnly>(r, "const_ref_move_only"); break;
      default: DataHistory<int, const int>(r, "const_ref_int"); break;
    }
  });
  vh::Section("reference", 2000, 100000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(5)) {
      case 0: RefHistory<Full>(r, "ref<obj>"); break;
      case 1: RefHistory<const Full>(r, "ref<const obj>"); break;
      case 2: RefHistory<std::string>(r, "ref<string>"); break;
      case 3: RefHistory<double>(r, "ref<double>"); break;
      default: RefHistory<const int>(r, "ref<const int>"); break;
    }
  });
  vh::Once("unordered", [](vh::Rng&) {
    double nan = std::nan("");
    OptionalDataOrRef<double> a(nan), b(1.0); const OptionalRef<const double> c(nan);
    vh::Check(!(a < b) && !(a > b) && !(a == b) && a != b && (a <=> b) == std::partial_ordering::unordered, "unordered:data", "NaN");
    vh::Check(!(c < c) && c != c && (c <=> c) == std::partial_ordering::unordered, "unordered:ref", "NaN");
    vh::Eval(2);
  });
  vh::Once("compiled", [](vh::Rng&) { constexpr int kResult = Compiled(); vh::Eq("compiled", kResult, 0, "evaluated by the compiler"); vh::Eq("compiled:run", Compiled(), 0, "run"); vh::Eval(); });
  vh::Once("empty", [](vh::Rng&) {
    const auto dies = [](const char* key, auto fn) { const vh::ChildResult c = vh::RunChild(fn, 20); vh::Check(c.Stopped(), key, "an access while empty did not stop the program: " + c.err); vh::Count("empty_accesses"); vh::Eval(); };
    OptionalDataOrRef<std::string> a; const auto& ca = a; std::string s; OptionalRef<std::string> q; const auto& cq = q;
    dies("empty:value", [&] { return a.value().size() == 99 ? 1 : 0; });
    dies("empty:const_value", [&] { return ca.value().size() == 99 ? 1 : 0; });
    dies("empty:deref", [&] { return (*a).size() == 99 ? 1 : 0; });
    dies("empty:const_deref", [&] { return (*ca).size() == 99 ? 1 : 0; });
    dies("empty:arrow", [&] { return a->size() == 99 ? 1 : 0; });
    dies("empty:const_arrow", [&] { return ca->size() == 99 ? 1 : 0; });
    dies("empty:reset", [&] { a.set_ref(s); a.reset(); return a->size() == 99 ? 1 : 0; });
    dies("empty:moved", [&] { a = std::string("x"); auto b = std::move(a); return a->size() == 99 ? 1 : 0; });  // NOLINT
    dies("empty:ref_value", [&] { return q.value().size() == 99 ? 1 : 0; });
    dies("empty:ref_const_value", [&] { return cq.value().size() == 99 ? 1 : 0; });
    dies("empty:ref_deref", [&] { return (*cq).size() == 99 ? 1 : 0; });
    dies("empty:ref_arrow", [&] { return q->size() == 99 ? 1 : 0; });
    dies("empty:ref_assign", [&] { q = s; return 0; });
  });
  trk::Report();
}
