// VH-SRC: mbo/types/stringify.cc mbo/log/demangle.cc
// VH-OPT: -O0
// VH-SHARDS: 6
// VH-RULE: random histories (20..120 operations) over four Json variables mirrored by a plain model: assignment of every scalar type (as lvalue and temporary), of Json parts (copy from const and non const, move, self, parent to child, child to parent), of owning pointers and arrays, Reset/clear/Make*, array push/emplace/pop/resize/erase/iterate, object insert/emplace/erase/iterate, modification through every kind of view. After every operation all four variables are compared in full to their models through the const interface; comparison of random pairs and triples against exact comparison of the models; every object is serialised in all three modes with random root options and read by an independent strict JSON parser. Standard output must stay empty. A case is one history.
// VH-ASSUME: absl::flat_hash_map is a stand-in whose iteration order depends on the insertion order, as it may in Abseil.
#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include <vector>

#include "json_model.h"
#include "mbo/json/json.h"
#include "vh.h"

namespace {
using mbo::json::Json;

int Sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

// ---- Full comparison of a value with its model, through the const interface --------------------------------------------
// Returns a description of the first difference.
std::string Diff(const Json& j, const M& m, const std::string& path) {
  const bool kinds[6] = {j.IsNull(), j.IsArray(), j.IsBool(), j.IsNumber(), j.IsObject(), j.IsString()};
  for (int k = 0; k < 6; ++k) { if (kinds[k] != (k == m.kind)) { return path + ": kind predicate " + std::to_string(k) + " is wrong, want kind " + std::to_string(m.kind); } }
  if (static_cast<int>(j.GetKind()) != static_cast<int>(m.kind)) { return path + ": GetKind"; }
  if (static_cast<bool>(j) == (m.kind == M::kNull)) { return path + ": operator bool"; }
  if (j.IsTrue() != (m.kind == M::kBool && m.b) || j.IsFalse() != (m.kind == M::kBool && !m.b)) { return path + ": IsTrue/IsFalse"; }
  const bool num = m.kind == M::kNumber;
  if (j.IsSignedInt() != (num && m.rep == M::kSigned)) { return path + ": IsSignedInt is " + (j.IsSignedInt() ? "true" : "false"); }
  if (j.IsUnsignedInt() != (num && m.rep == M::kUnsigned)) { return path + ": IsUnsignedInt"; }
  if (j.IsFloat() != (num && m.rep == M::kFloat)) { return path + ": IsFloat is " + (j.IsFloat() ? "true" : "false"); }
  if (j.IsInteger() != (num && m.rep != M::kFloat)) { return path + ": IsInteger"; }
  if ((j == std::nullopt) != (m.kind == M::kNull)) { return path + ": == nullopt"; }
  const std::size_t want_size = m.kind == M::kArray ? m.a.size() : m.kind == M::kObject ? m.o.size() : 0;
  if (j.size() != want_size || j.empty() != (want_size == 0)) { return path + ": size " + std::to_string(j.size()) + " want " + std::to_string(want_size); }
  switch (m.kind) {
    case M::kNull: break;
    case M::kBool: if (!(j == m.b) || j == !m.b) { return path + ": bool value"; } break;
    case M::kNumber:
      if (m.rep == M::kSigned && !(j == m.i)) { return path + ": is not " + std::to_string(m.i); }
      if (m.rep == M::kUnsigned && !(j == m.u)) { return path + ": is not " + std::to_string(m.u); }
      if (m.rep == M::kFloat && !(j == m.f)) { return path + ": is not " + std::to_string(m.f); }
      break;
    case M::kString:
      if (!(j == m.s) || !(j == std::string_view(m.s)) || j == m.s + "x") { return path + ": string value is not " + vh::Json(m.s); }
      break;
    case M::kArray: {
      for (std::size_t k = 0; k < m.a.size(); ++k) { if (auto d = Diff(j[k], m.a[k], path + "[" + std::to_string(k) + "]"); !d.empty()) { return d; } }
      if (m.a.size() > 0 && &j.at(0) != &j[0]) { return path + ": at"; }
      std::size_t k = 0;
      for (const Json& e : j) { if (&e != &j[k]) { return path + ": begin()/end()"; } ++k; }
      if (k != m.a.size()) { return path + ": begin()/end() length"; }
      for (auto it = j.rbegin(); it != j.rend(); ++it) { --k; if (&*it != &j[k]) { return path + ": rbegin()/rend()"; } }
      if (k != 0) { return path + ": rbegin()/rend() length"; }
      for (const Json& e : j.values()) { if (&e != &j[k]) { return path + ": values()"; } ++k; }
      {
        std::size_t q = 0;
        for (auto it = j.values().begin(); it != j.values().end(); ++q) { if (q >= k || &*it++ != &j[q]) { return path + ": values() iterated by it++"; } }
        if (q != k) { return path + ": values() iterated by it++ ends early"; }
      }
      if (k != m.a.size() || j.values().size() != k || j.values().empty() != (k == 0)) { return path + ": values() length"; }
      k = 0;
      for (const Json& e : j.array_values()) { if (&e != &j[k]) { return path + ": array_values()"; } ++k; }
      if (k != m.a.size()) { return path + ": array_values() length"; }
      break;
    }
    case M::kObject: {
      for (const auto& [key, e] : m.o) {
        if (!j.contains(key)) { return path + ": property " + vh::Json(key) + " is missing"; }
        if (auto d = Diff(j[key], e, path + "." + vh::Json(key)); !d.empty()) { return d; }
        if (&j.at(key) != &j[key]) { return path + ": at"; }
      }
      std::map<std::string, int> seen;
      for (const std::string& name : j.property_names()) { ++seen[name]; }
      for (auto&& [name, value] : j.property_pairs()) { if (m.o.count(name) == 0 || &value != &j[name]) { return path + ": property_pairs()"; } ++seen[name]; }
      for (const auto& [key, e] : m.o) { if (seen[key] != 2) { return path + ": property_names()/property_pairs() show " + vh::Json(key) + " " + std::to_string(seen[key]) + " times"; } }
      if (seen.size() != m.o.size()) { return path + ": property_names() has extra names"; }
      std::set<const Json*> values, values2, want;
      for (const auto& [key, e] : m.o) { want.insert(&j[key]); }
      for (const Json& e : j.property_values()) { values.insert(&e); }
      for (const Json& e : j.values()) { values2.insert(&e); }
      if (values != want) { return path + ": property_values()"; }
      values2.clear();
      for (auto it = j.values().begin(); it != j.values().end();) { values2.insert(&*it++); if (values2.size() > want.size()) { break; } }
      if (values2 != want || j.values().size() != want.size()) { return path + ": values()"; }
      break;
    }
  }
  if (m.kind != M::kObject && j.contains("a")) { return path + ": contains() of something that is no object"; }
  return "";
}

// ---- Generators --------------------------------------------------------------------------------------------------------
std::string Str(vh::Rng& r) {
  static const char* const kParts[] = {"a", "b", "key", "\"", "\\", "'", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f", "0", "7", "f", "\u00e9", "\u20ac", "\U0001F600", "\u2028", "u0041", "\\n", "{", "}", "[", ",", ":", "null", " ", "%d", "\uffff", "\u07ff", "\u0800"};
  std::string s;
  const std::size_t n = r.Chance(1, 30) ? r.Below(60) : r.Below(5);
  for (std::size_t k = 0; k < n; ++k) { if (r.Chance(1, 12)) { s += '\0'; } else { s += r.Pick(kParts); } }
  return s;
}
std::string KeyOf(vh::Rng& r) { return r.Chance(2, 3) ? std::string(1, static_cast<char>('a' + r.Below(6))) : Str(r); }
std::int64_t Int(vh::Rng& r) {
  switch (r.Below(5)) {
    case 0: return r.Range(-3, 3);
    case 1: return r.Of<std::int64_t>({std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max(), std::int64_t{1} << 53, (std::int64_t{1} << 53) + 1, -(std::int64_t{1} << 53) - 1, 1000000, 1234567});
    case 2: return static_cast<std::int64_t>(r.Next());
    default: return static_cast<std::int64_t>(r.Next()) >> r.Below(63);
  }
}
double Dbl(vh::Rng& r) {
  switch (r.Below(6)) {
    case 0: return static_cast<double>(r.Range(-3, 3));
    case 1: return r.Of<double>({0.1, 1.0 / 3, -0.0, 1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.125, 1e15, 1e16, 1e17, 9007199254740993.0, 18446744073709551616.0, 9223372036854775808.0, 1e21, 0.30000000000000004, 100000, 1e6, 1234567});
    case 2: { double d = 0; do { const std::uint64_t bits = r.Next(); std::memcpy(&d, &bits, sizeof(d)); } while (!std::isfinite(d)); return d; }
    case 3: return r.Chance(1, 4) ? (r.Coin() ? 1 : -1) * std::numeric_limits<double>::infinity() : 2.5;
    case 4: return static_cast<double>(Int(r));
    default: return static_cast<double>(r.Range(-100000, 100000)) / static_cast<double>(r.Of<int>({1, 2, 8, 10, 100, 1000}));
  }
}

// Calls `f` with a C++ value (sometimes as an lvalue, sometimes as a temporary) and the model of it.
template <typename F>
void Scalar(vh::Rng& r, F&& f) {
  auto give = [&](auto v, M m) {
    switch (r.Below(3)) {
      case 0: f(v, std::move(m)); break;
      case 1: { const auto c = v; f(c, std::move(m)); break; }
      default: f(std::move(v), std::move(m)); break;
    }
  };
  switch (r.Below(16)) {
    case 0: give(std::nullopt, M{}); break;
    case 1: { const bool v = r.Coin(); give(v, M::B(v)); break; }
    case 2: { const auto v = static_cast<signed char>(Int(r)); give(v, M::I(v)); break; }
    case 3: { const auto v = static_cast<short>(Int(r)); give(v, M::I(v)); break; }
    case 4: { const auto v = static_cast<int>(Int(r)); give(v, M::I(v)); break; }
    case 5: { const auto v = Int(r); give(v, M::I(v)); break; }
    case 6: { const auto v = static_cast<long long>(Int(r)); give(v, M::I(v)); break; }
    case 7: { const auto v = static_cast<unsigned char>(Int(r)); give(v, M::U(v)); break; }
    case 8: { const auto v = static_cast<unsigned>(Int(r)); give(v, M::U(v)); break; }
    case 9: { const auto v = static_cast<std::uint64_t>(Int(r)); give(v, M::U(v)); break; }
    case 10: { const auto v = static_cast<float>(Int(r)) / 8; give(v, M::F(static_cast<double>(v))); break; }
    case 11: { const double v = Dbl(r); give(v, M::F(v)); break; }
    case 12: { const std::string v = Str(r); give(v, M::S(v)); break; }
    case 13: { const std::string v = Str(r); give(std::string_view(v), M::S(v)); break; }
    case 14: { const std::string v = Str(r); give(v.c_str(), M::S(v.c_str())); break; }
    default: f("literal", M::S("literal")); break;
  }
}

struct Slot { Json* j; M* m; bool Valid() const { return j != nullptr; } };

// A random part of (j, m); `stop` is the chance to stop at each level.
Slot Part(vh::Rng& r, Json& j, M& m, std::vector<const M*>* up = nullptr) {
  Json* jp = &j;
  M* mp = &m;
  for (;;) {
    if (up != nullptr) { up->push_back(mp); }
    if (r.Chance(1, 3)) { break; }
    if (mp->kind == M::kArray && !mp->a.empty()) {
      const std::size_t k = r.Below(mp->a.size());
      jp = &(*jp)[k];
      mp = &mp->a[k];
    } else if (mp->kind == M::kObject && !mp->o.empty()) {
      auto it = mp->o.begin();
      std::advance(it, static_cast<std::ptrdiff_t>(r.Below(mp->o.size())));
      jp = &(*jp)[it->first];
      mp = &it->second;
    } else { break; }
  }
  return {jp, mp};
}

const Json& C(const Json& j) { return j; }

std::size_t IndexOfPtr(const Json& obj, const M& m, const Json* p, std::string& key) {
  for (const auto& [k, e] : m.o) { if (&obj[k] == p) { key = k; return 1; } }
  return 0;
}

void History(vh::Rng& r, std::uint64_t) {
  std::string log;
  static int null_fd = -1;
  std::array<Json, 4> js;
  std::array<M, 4> ms;
  std::ostringstream cout_text;
  std::streambuf* const old = std::cout.rdbuf(cout_text.rdbuf());
  struct Restore { std::streambuf* b; ~Restore() { std::cout.rdbuf(b); } } restore{old};
  (void)null_fd;
  const std::size_t steps = 20 + r.Below(100);
  for (std::size_t step = 0; step < steps; ++step) {
    const std::size_t vi = r.Below(4);
    Json& root = js[vi];
    std::vector<const M*> up;
    const Slot t = Part(r, root, ms[vi], &up);
    Json& j = *t.j;
    M& m = *t.m;
    std::string op;
    const bool big = Nodes(ms[vi]) > 150;
    std::string fail;
    auto want = [&](bool ok, const char* what) { if (!ok) { fail = what; } };
    switch (big ? 100 : r.Below(30)) {
      case 100: op = "Reset root"; want(&root.Reset() == &root, "Reset result"); ms[vi] = M{}; break;
      case 0: Scalar(r, [&](auto&& v, M x) { op = "= " + Show(x); want(&(j = std::forward<decltype(v)>(v)) == &j, "= result"); m = std::move(x); }); break;
      case 1: {  // Copy a part of some variable to here; it may contain the target or be part of it.
        const std::size_t wi = r.Below(4);
        const Slot f = Part(r, js[wi], ms[wi]);
        if (Nodes(*f.m) > 60) { break; }
        op = "= copy of " + Show(*f.m);
        const M x = *f.m;
        if (r.Coin()) { j = *f.j; } else { j = C(*f.j); }
        m = x;
        break;
      }
      case 2: {  // Move a part of some variable here: from the target's own parts, or from something apart from it.
        const std::size_t wi = r.Below(4);
        std::vector<const M*> fup;
        const Slot f = Part(r, js[wi], ms[wi], &fup);
        bool inside = false, above = false;
        for (const M* p : fup) { inside |= p == &m; }
        for (const M* p : up) { above |= p == f.m; }
        if (f.m == &m || (above && !inside)) { break; }
        op = "= moved " + Show(*f.m) + (inside ? " (own part)" : "");
        M x = *f.m;
        if (inside) { j = std::move(*f.j); }
        else { j = std::move(*f.j); f.j->Reset(); *f.m = M{}; }
        m = std::move(x);
        break;
      }
      case 3: {
        op = "self assign";
        Json& same = j;
        if (r.Coin()) { j = same; } else { j = C(same); }
        break;
      }
      case 4: {
        if (r.Chance(1, 4)) { op = "= null unique_ptr<Json>"; const std::unique_ptr<Json> p; j = p; m = M{}; break; }
        const std::size_t wi = r.Below(4);
        const Slot f = Part(r, js[wi], ms[wi]);
        if (Nodes(*f.m) > 60) { break; }
        op = "= unique_ptr of " + Show(*f.m);
        const M x = *f.m;
        const auto p = std::make_unique<Json>(C(*f.j));
        j = p;
        m = x;
        if (auto d = Diff(*p, x, "pointee"); !d.empty()) { fail = "assignment from a pointer changed the source"; }
        break;
      }
      case 5: {
        op = "= vector of";
        auto p = std::make_unique<std::vector<Json>>();
        M x = M::A();
        for (std::size_t k = r.Below(4); k > 0; --k) { Scalar(r, [&](auto&& v, M e) { p->emplace_back(std::forward<decltype(v)>(v)); x.a.push_back(std::move(e)); }); }
        op += Show(x);
        if (r.Coin()) { j = p; if (p == nullptr || p->size() != x.a.size()) { fail = "source array changed"; } } else { const auto c = std::move(p); j = c; }
        m = x;
        break;
      }
      case 6: op = "Reset"; want(&j.Reset() == &j, "Reset result"); m = M{}; break;
      case 7: if (!r.Chance(1, 2)) { break; } op = "clear"; j.clear(); if (m.kind == M::kArray) { m.a.clear(); } else if (m.kind == M::kObject) { m.o.clear(); } else { m = M{}; } break;
      case 8: if (m.kind == M::kNull || m.kind == M::kArray) { op = "MakeArray"; want(&j.MakeArray() == &j, "MakeArray result"); if (m.kind == M::kNull) { m = M::A(); } } break;
      case 9: if (m.kind == M::kNull || m.kind == M::kObject) { op = "MakeObject"; want(&j.MakeObject() == &j, "MakeObject result"); if (m.kind == M::kNull) { m = M::O(); } } break;
      case 10: if (m.kind == M::kNull) { const std::string s = Str(r); op = "MakeString " + vh::Json(s); switch (r.Below(3)) { case 0: j.MakeString(s); break; case 1: j.MakeString(std::string(s)); break; default: j.MakeString(std::string_view(s)); break; } m = M::S(s); } break;
      case 11: case 12: case 13: {
        if (m.kind != M::kNull && m.kind != M::kArray) { break; }
        if (r.Chance(1, 4)) {
          const std::size_t wi = r.Below(4);
          const Slot f = Part(r, js[wi], ms[wi]);
          if (Nodes(*f.m) > 40) { break; }
          M x = *f.m;
          bool apart = true;
          std::vector<const M*> none;
          for (const M* p : up) { apart &= p != f.m; }
          op = "push_back copy of " + Show(x);
          if (!apart && m.kind == M::kNull) { op.clear(); break; }  // The source changes (to an array) before it is read.
          if (r.Coin()) { j.push_back(C(*f.j)); } else { Json& res = j.emplace_back(C(*f.j)); want(&res == &j[m.a.size()], "emplace_back result"); }
          if (m.kind == M::kNull) { m = M::A(); }
          m.a.push_back(std::move(x));
          break;
        }
        Scalar(r, [&](auto&& v, M x) {
          op = "push_back " + Show(x);
          if (m.kind == M::kNull) { m = M::A(); }
          if (r.Coin()) { j.push_back(std::forward<decltype(v)>(v)); } else { Json& res = j.emplace_back(std::forward<decltype(v)>(v)); want(&res == &j[m.a.size()], "emplace_back result"); }
          m.a.push_back(std::move(x));
        });
        break;
      }
      case 14: if (m.kind == M::kArray && !m.a.empty()) { op = "pop_back"; j.pop_back(); m.a.pop_back(); } break;
      case 15: {
        if (m.kind != M::kArray || m.a.empty()) { break; }
        const std::size_t k = r.Below(m.a.size());
        op = "erase at " + std::to_string(k);
        if (r.Coin()) { const auto it = j.erase(j.begin() + static_cast<std::ptrdiff_t>(k)); want(it - j.begin() == static_cast<std::ptrdiff_t>(k), "erase result"); }
        else {
          Json::const_value_iterator it = C(j).values().begin();
          for (std::size_t q = 0; q < k; ++q) { if (r.Coin()) { ++it; } else { it++; } }
          const Json::value_iterator res = j.erase(it);
          Json::value_iterator w = j.values().begin();
          for (std::size_t q = 0; q < k; ++q) { ++w; }
          want(res == w, "erase(value iterator) result");
        }
        m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(k));
        break;
      }
      case 16: {
        if (m.kind != M::kArray) { break; }
        const std::size_t lo = r.Below(m.a.size() + 1), hi = lo + r.Below(m.a.size() + 1 - lo);
        op = "erase " + std::to_string(lo) + ".." + std::to_string(hi);
        if (r.Coin()) { const auto it = j.erase(j.begin() + static_cast<std::ptrdiff_t>(lo), j.begin() + static_cast<std::ptrdiff_t>(hi)); want(it - j.begin() == static_cast<std::ptrdiff_t>(lo), "erase result"); }
        else {
          Json::const_value_iterator f = C(j).values().begin();
          for (std::size_t q = 0; q < lo; ++q) { ++f; }
          Json::const_value_iterator l = f;
          for (std::size_t q = lo; q < hi; ++q) { ++l; }
          j.erase(f, l);
        }
        m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(lo), m.a.begin() + static_cast<std::ptrdiff_t>(hi));
        break;
      }
      case 17: {
        if (m.kind != M::kArray) { break; }
        const std::size_t n = r.Below(10);
        if (r.Coin()) { op = "resize " + std::to_string(n); j.resize(n); m.a.resize(n); }
        else { Scalar(r, [&](const auto& v, M x) { op = "resize " + std::to_string(n) + " " + Show(x); j.resize(n, v); m.a.resize(n, x); }); }
        break;
      }
      case 18: case 19: case 20: {
        if (m.kind != M::kNull && m.kind != M::kObject) { break; }
        const std::string k = KeyOf(r);
        Scalar(r, [&](auto&& v, M x) {
          op = "[" + vh::Json(k) + "] = " + Show(x);
          if (r.Coin()) { j[k] = std::forward<decltype(v)>(v); } else { j.at(k) = std::forward<decltype(v)>(v); }
          if (m.kind == M::kNull) { m = M::O(); }
          m.o[k] = std::move(x);
        });
        break;
      }
      case 21: {
        if (m.kind != M::kNull && m.kind != M::kObject) { break; }
        const std::string k = KeyOf(r);
        op = "touch [" + vh::Json(k) + "]";
        (void)j[k];
        if (m.kind == M::kNull) { m = M::O(); }
        (void)m.o[k];
        break;
      }
      case 22: {
        if (m.kind != M::kNull && m.kind != M::kObject) { break; }
        const std::string k = KeyOf(r);
        Scalar(r, [&](auto&& v, M x) {
          op = "emplace " + vh::Json(k) + " " + Show(x);
          Json& res = j.emplace(k, std::forward<decltype(v)>(v));
          if (m.kind == M::kNull) { m = M::O(); }
          m.o.emplace(k, std::move(x));
          want(&res == &C(j)[k], "emplace result");
        });
        break;
      }
      case 23: {
        const std::string k = KeyOf(r);
        op = "erase " + vh::Json(k);
        const std::size_t n = j.erase(k);
        want(n == (m.kind == M::kObject ? m.o.erase(k) : 0), "erase(name) result");
        break;
      }
      case 24: {  // Erase by value iterator in an object.
        if (m.kind != M::kObject || m.o.empty()) { break; }
        const bool range = r.Chance(1, 3);
        Json::const_value_iterator f = C(j).values().begin();
        std::vector<const Json*> order;
        for (const Json& e : C(j).values()) { order.push_back(&e); }
        const std::size_t lo = r.Below(order.size()), hi = range ? lo + r.Below(order.size() + 1 - lo) : lo + 1;
        op = "erase properties at " + std::to_string(lo) + ".." + std::to_string(hi);
        std::vector<std::string> keys;
        for (std::size_t q = lo; q < hi; ++q) { std::string k; if (IndexOfPtr(j, m, order[q], k) != 0) { keys.push_back(k); } }
        for (std::size_t q = 0; q < lo; ++q) { ++f; }
        Json::value_iterator res;
        if (range) { Json::const_value_iterator l = f; for (std::size_t q = lo; q < hi; ++q) { ++l; } res = j.erase(f, l); } else { res = j.erase(f); }
        want(hi == order.size() ? res == j.values().end() : &*res == order[hi], "erase(value iterator) result");
        for (const auto& k : keys) { m.o.erase(k); }
        break;
      }
      case 25: case 26: {  // Change the values through a view.
        if (m.kind != M::kArray && m.kind != M::kObject) { break; }
        Scalar(r, [&](const auto& v, M x) {
          const unsigned how = static_cast<unsigned>(r.Below(4));
          const std::size_t at = r.Below(4);
          op = "change number " + std::to_string(at) + " through view " + std::to_string(how) + " to " + Show(x);
          Json* changed = nullptr;
          std::size_t k = 0;
          auto set = [&](Json& e) { if (k++ == at) { changed = &e; } };
          if (m.kind == M::kArray) {
            if (how == 0) { for (Json& e : j.values()) { set(e); } }
            else if (how == 1) { for (Json& e : j.array_values()) { set(e); } }
            else if (how == 2) { for (Json& e : j) { set(e); } }
            else { for (auto it = j.rbegin(); it != j.rend(); ++it) { set(*it); } }
            want(k == m.a.size(), "view length");
            if (changed == nullptr) { return; }
            const std::size_t idx = how == 3 ? m.a.size() - 1 - at : at;
            want(changed == &j[idx], "view element");
            *changed = v;
            m.a[idx] = std::move(x);
          } else {
            if (how == 0) { for (Json& e : j.values()) { set(e); } }
            else if (how == 1) { for (auto&& p : j.property_pairs()) { set(p.second); } }
            else { for (Json& e : j.property_values()) { set(e); } }
            want(k == m.o.size(), "view length");
            if (changed == nullptr) { return; }
            std::string key;
            if (IndexOfPtr(j, m, changed, key) == 0) { fail = "view element"; return; }
            *changed = v;
            m.o[key] = std::move(x);
          }
        });
        break;
      }
      case 27: {  // Copy and move construct.
        op = "copy and move";
        Json copy(C(j));
        if (auto d = Diff(copy, m, "copy"); !d.empty()) { fail = d; break; }
        Json moved(std::move(copy));
        if (auto d = Diff(moved, m, "moved"); !d.empty()) { fail = d; break; }
        if (r.Coin()) { j = moved; moved = 1; } else { j = std::move(moved); }
        break;
      }
      case 28: {  // Rebuild an equal value in another order of insertion.
        if (m.kind != M::kObject) { break; }
        op = "rebuild";
        std::vector<std::string> keys;
        for (const auto& [k, e] : m.o) { keys.push_back(k); }
        r.Shuffle(keys);
        Json other;
        other.MakeObject();
        for (int extra = static_cast<int>(r.Below(40)); extra > 0; --extra) { other["extra" + std::to_string(extra)] = 1; }
        for (const auto& k : keys) { other[k] = C(j)[k]; }
        for (int extra = 40; extra > 0; --extra) { other.erase("extra" + std::to_string(extra)); }
        want(other == j && j == other && !(other < j) && !(j < other) && (j <=> other) == std::strong_ordering::equal, "an object with the same data but another history compares different");
        if (r.Coin()) { j = std::move(other); }
        break;
      }
      default: {  // Compare with a plain value.
        Scalar(r, [&](const auto& v, M x) {
          op = "compare to " + Show(x);
          const int c = Cmp(m, x);
          want(Sign(C(j) <=> v) == c, "<=> with a plain value");
          want((C(j) == v) == (c == 0) && (C(j) < v) == (c < 0), "== or < with a plain value");
        });
        break;
      }
    }
    if (op.empty()) { continue; }
    log += "v" + std::to_string(vi) + (&j == &root ? "" : "..") + " " + op.substr(0, 150) + "; ";
    if (log.size() > 3000) { log.erase(0, 1000); }
    vh::Case(log);
    vh::Eval();
    vh::Count("op:" + op.substr(0, op.find_first_of(" [")) );
    bool ok = true;
    if (!fail.empty()) { vh::Fail("op", fail + " in " + log); ok = false; }
    for (std::size_t k = 0; k < 4 && ok; ++k) {
      if (auto d = Diff(js[k], ms[k], "v" + std::to_string(k)); !d.empty()) { vh::Fail("data", d + " after " + log); ok = false; }
    }
    if (!cout_text.str().empty()) { vh::Fail("stdout", "printed " + vh::Json(cout_text.str().substr(0, 60)) + " after " + log); cout_text.str(""); }
    if (!ok) { return; }
    // Comparison of parts.
    std::array<Slot, 3> p;
    for (auto& s : p) { const std::size_t wi = r.Below(4); s = Part(r, js[wi], ms[wi]); }
    if (r.Chance(1, 8)) { p[1] = p[0]; }
    std::array<std::array<int, 3>, 3> cmp{};
    for (std::size_t x = 0; x < 3; ++x) {
      for (std::size_t y = 0; y < 3; ++y) {
        const Json& jx = *p[x].j;
        const Json& jy = *p[y].j;
        const int c = Cmp(*p[x].m, *p[y].m), got = Sign(jx <=> jy);
        cmp[x][y] = got;
        auto ctx = [&] { return Show(*p[x].m).substr(0, 300) + " <=> " + Show(*p[y].m).substr(0, 300) + " gives " + std::to_string(got) + " want " + std::to_string(c); };
        vh::Check(c == 99 ? got != 0 : got == c, "compare", ctx);
        vh::Check((jx == jy) == (got == 0) && (jx != jy) == (got != 0) && (jx < jy) == (got < 0) && (jx > jy) == (got > 0) && (jx <= jy) == (got <= 0) && (jx >= jy) == (got >= 0), "compare:operators", ctx);
      }
    }
    for (std::size_t x = 0; x < 3; ++x) {
      for (std::size_t y = 0; y < 3; ++y) {
        vh::Check(cmp[x][y] == -cmp[y][x], "compare:antisymmetric", [&] { return Show(*p[x].m).substr(0, 300) + " <=> " + Show(*p[y].m).substr(0, 300); });
        for (std::size_t z = 0; z < 3; ++z) { vh::Check(!(cmp[x][y] <= 0 && cmp[y][z] <= 0 && cmp[x][z] > 0), "compare:transitive", [&] { return Show(*p[x].m).substr(0, 300) + " " + Show(*p[y].m).substr(0, 300) + " " + Show(*p[z].m).substr(0, 300); }); }
      }
    }
    vh::Count("comparisons", 9);
    // Serialisation.
    if (r.Chance(1, 3)) {
      const std::size_t wi = r.Below(4);
      const Slot s = Part(r, js[wi], ms[wi]);
      if (s.m->kind == M::kObject) {
        static const char* const kSpace[] = {"", "", " ", "\t", "  ", "\n"};
        const std::string pre = r.Pick(kSpace), suf = r.Pick(kSpace), ind = r.Pick(kSpace);
        const mbo::types::StringifyRootOptions opts{.root_prefix = pre, .root_suffix = suf, .root_indent = ind};
        std::vector<std::string> texts;
        for (const auto mode : {Json::SerializeMode::kCompact, Json::SerializeMode::kLine, Json::SerializeMode::kPretty}) {
          texts.push_back(C(*s.j).Serialize(mode));
          texts.push_back(C(*s.j).Serialize(mode, opts));
          std::ostringstream os;
          C(*s.j).Stream(os, mode);
          vh::Check(os.str() == texts[texts.size() - 2], "serialize:stream", [&] { return os.str().substr(0, 300); });
        }
        vh::Check(C(*s.j).Serialize() == texts[0], "serialize:default", [&] { return texts[0]; });
        for (std::size_t q = 0; q < texts.size(); ++q) {
          const std::string d = SameText(texts[q], *s.m);
          vh::Check(d.empty(), "serialize", [&] { return "mode " + std::to_string(q) + " " + d + " for " + Show(*s.m).substr(0, 500) + " text " + vh::Json(texts[q].substr(0, 600)); });
        }
        vh::Count("serialized", texts.size());
        vh::Distinct(vh::HashOf(texts[0]));
        if (step > 60 && wi == 0) { vh::SampleText(texts[0]); }
      }
    }
  }
}

// Strings of any bytes: still JSON, and everything that is text is kept.
void AnyBytes(vh::Rng& r, std::uint64_t i) {
  std::string s = r.Bytes(r.Below(6));
  if (i < 256) { s = std::string(1, static_cast<char>(i)); } else if (i < 768) { s = "x" + std::string(1, static_cast<char>(i)) + std::string(1, static_cast<char>(i >= 512 ? 0x80 : 'z')); }
  Json j;
  j["v"] = s;
  j["w"].emplace_back(s);
  const std::string n = "k" + s;
  j["o"][n] = "after";
  vh::Case(vh::Hex(s));
  vh::Eval();
  vh::Distinct(vh::HashOf(s));
  for (const auto mode : {Json::SerializeMode::kCompact, Json::SerializeMode::kPretty}) {
    const std::string text = j.Serialize(mode);
    Sax sax;
    const bool ok = nlohmann::json::sax_parse(text, &sax);
    vh::Check(ok && sax.root.kind == M::kObject && sax.root.o.size() == 3 && !sax.dup && sax.root.o["o"].o.size() == 1 && sax.root.o["o"].o.begin()->second.s == "after", "serialize:bytes", [&] { return "bytes " + vh::Hex(s) + " give " + vh::Json(text) + " " + sax.error; });
    if (!ok) { continue; }
    M probe = M::O();
    const std::string quoted = nlohmann::json(s).dump(-1, ' ', false, nlohmann::json::error_handler_t::ignore);
    if (quoted == nlohmann::json(s).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace)) {  // Valid UTF-8.
      vh::Check(sax.root.o["v"].s == s && sax.root.o["w"].a.at(0).s == s && sax.root.o["o"].o.begin()->first == n, "serialize:bytes", [&] { return "text " + vh::Hex(s) + " becomes " + vh::Hex(sax.root.o["v"].s) + " in " + vh::Json(text); });
      vh::Count("utf8");
    } else {
      vh::Count("not_utf8");
    }
  }
}

// Every representable number.
void Numbers(vh::Rng& r, std::uint64_t) {
  Json j;
  M m = M::O();
  for (int k = 0; k < 12; ++k) {
    const std::string key = "k" + std::to_string(k);
    switch (r.Below(4)) {
      case 0: { const std::int64_t v = Int(r); j[key] = v; m.o[key] = M::I(v); break; }
      case 1: { const std::uint64_t v = static_cast<std::uint64_t>(Int(r)); j[key] = v; m.o[key] = M::U(v); break; }
      default: { const double v = Dbl(r); j[key] = v; m.o[key] = M::F(v); break; }
    }
  }
  vh::Case(Show(m));
  vh::Eval(12);
  vh::Distinct(vh::HashOf(Show(m)));
  const std::string text = j.Serialize(r.Coin() ? Json::SerializeMode::kLine : Json::SerializeMode::kPretty);
  const std::string d = SameText(text, m);
  vh::Check(d.empty(), "serialize:number", [&] { return d + " for " + Show(m) + " text " + text; });
  if (auto e = Diff(j, m, "v"); !e.empty()) { vh::Fail("data:number", e); }
}

// Nothing may be written to file descriptor 1 either.
void Fd(vh::Rng& r, std::uint64_t i) {
  const auto res = vh::RunChild([&] {
    Json j;
    j["a"].push_back(1);
    j["b"]["c"] = "d";
    for (std::uint64_t k = 0; k < i % 3; ++k) { j["a"].push_back("x"); }
    std::size_t n = 0;
    for (Json& v : j.values()) { n += v.size(); }
    for (Json& v : j["a"].values()) { n += v.size(); v = 3; }
    for (const Json& v : C(j).values()) { n += v.size(); }
    n += j.Serialize(Json::SerializeMode::kPretty).size();
    const Json copy = j;
    n += copy == j ? 1 : 0;
    for (auto&& p : j.property_pairs()) { n += p.second.size(); }
    for (auto&& p : j.property_names()) { n += p.size(); }
    j.erase(C(j).values().begin());
    std::cout.flush();
    return n == 12345 ? 1 : 0;
  }, 20);
  (void)r;
  vh::Eval();
  vh::Distinct(i);
  vh::Check(res.exited && res.code == 0, "fd", [&] { return "the child ended badly: " + res.err.substr(0, 300); });
  vh::Check(res.out.empty(), "stdout", [&] { return "printed " + vh::Json(res.out.substr(0, 100)); });
}
}  // namespace

void VhMain() {
  vh::Section("fd", 3, 3, Fd);
  vh::Section("bytes", 6000, 100000, AnyBytes);
  vh::Section("numbers", 10000, 300000, Numbers);
  vh::Section("history", 6000, 200000, History);
}
