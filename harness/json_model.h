#ifndef VERIF_JSON_MODEL_H_
#define VERIF_JSON_MODEL_H_
// A plain model of JSON data and a strict JSON reader (nlohmann::json's parser, with a check for duplicate names).
#include <cmath>
#include <cstdio>
#include <limits>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

#include "vh.h"

namespace {
// ---- The model -------------------------------------------------------------------------------------------------------
struct M {
  enum Kind { kNull, kArray, kBool, kNumber, kObject, kString } kind = kNull;
  enum Rep { kSigned, kUnsigned, kFloat } rep = kSigned;
  bool b = false;
  std::int64_t i = 0;
  std::uint64_t u = 0;
  double f = 0;
  bool single = false;  // Of float precision.
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;

  static M B(bool v) { M m; m.kind = kBool; m.b = v; return m; }
  static M I(std::int64_t v) { M m; m.kind = kNumber; m.rep = kSigned; m.i = v; return m; }
  static M U(std::uint64_t v) { M m; m.kind = kNumber; m.rep = kUnsigned; m.u = v; return m; }
  static M F(double v) { M m; m.kind = kNumber; m.rep = kFloat; m.f = v; return m; }
  static M S(std::string v) { M m; m.kind = kString; m.s = std::move(v); return m; }
  static M A() { M m; m.kind = kArray; return m; }
  static M O() { M m; m.kind = kObject; return m; }
  // long double has a 64 bit mantissa: it holds every value of all three representations exactly.
  long double Num() const { return rep == kSigned ? static_cast<long double>(i) : rep == kUnsigned ? static_cast<long double>(u) : static_cast<long double>(f); }
};
static_assert(std::numeric_limits<long double>::digits >= 64);

std::string Show(const M& m) {
  switch (m.kind) {
    case M::kNull: return "null";
    case M::kBool: return m.b ? "true" : "false";
    case M::kNumber: {
      char buf[64];
      if (m.rep == M::kSigned) { std::snprintf(buf, sizeof(buf), "%lld", static_cast<long long>(m.i)); }
      else if (m.rep == M::kUnsigned) { std::snprintf(buf, sizeof(buf), "%lluU", static_cast<unsigned long long>(m.u)); }
      else { std::snprintf(buf, sizeof(buf), "%.17gF", m.f); }
      return buf;
    }
    case M::kString: return vh::Json(m.s);
    case M::kArray: { std::string r = "["; for (const M& e : m.a) { r += Show(e) + ","; } return r + "]"; }
    case M::kObject: { std::string r = "{"; for (const auto& [k, e] : m.o) { r += vh::Json(k) + ":" + Show(e) + ","; } return r + "}"; }
  }
  return "?";
}

std::size_t Nodes(const M& m) {
  std::size_t n = 1;
  for (const M& e : m.a) { n += Nodes(e); }
  for (const auto& [k, e] : m.o) { n += Nodes(e); }
  return n;
}

// <0, 0, >0, or 99: different, in an order that is the library's choice.
int Cmp(const M& l, const M& r) {
  if (l.kind != r.kind) { return l.kind < r.kind ? -1 : 1; }
  switch (l.kind) {
    case M::kNull: return 0;
    case M::kBool: return static_cast<int>(l.b) - static_cast<int>(r.b);
    case M::kNumber: return l.Num() < r.Num() ? -1 : l.Num() > r.Num() ? 1 : 0;
    case M::kString: { const int c = l.s.compare(r.s); return c < 0 ? -1 : c > 0 ? 1 : 0; }
    case M::kArray:
      for (std::size_t k = 0; k < l.a.size() && k < r.a.size(); ++k) { if (const int c = Cmp(l.a[k], r.a[k]); c != 0) { return c; } }
      return l.a.size() < r.a.size() ? -1 : l.a.size() > r.a.size() ? 1 : 0;
    case M::kObject: {
      if (l.o.size() != r.o.size()) { return 99; }
      auto li = l.o.begin();
      for (auto ri = r.o.begin(); ri != r.o.end(); ++ri, ++li) { if (li->first != ri->first || Cmp(li->second, ri->second) != 0) { return 99; } }
      return 0;
    }
  }
  return 0;
}

// ---- Reading JSON text -------------------------------------------------------------------------------------------------
struct Sax : nlohmann::json_sax<nlohmann::json> {
  std::vector<M*> stack;
  M root;
  bool have_root = false, dup = false;
  std::string cur_key, error;
  M* Put(M v) {
    if (stack.empty()) { root = std::move(v); have_root = true; return &root; }
    M& top = *stack.back();
    if (top.kind == M::kArray) { top.a.push_back(std::move(v)); return &top.a.back(); }
    auto [it, ins] = top.o.emplace(cur_key, std::move(v));
    dup |= !ins;
    return &it->second;
  }
  bool null() override { Put(M{}); return true; }
  bool boolean(bool v) override { Put(M::B(v)); return true; }
  bool number_integer(number_integer_t v) override { Put(M::I(v)); return true; }
  bool number_unsigned(number_unsigned_t v) override { Put(M::U(v)); return true; }
  bool number_float(number_float_t v, const string_t&) override { Put(M::F(v)); return true; }
  bool string(string_t& v) override { Put(M::S(v)); return true; }
  bool binary(binary_t&) override { return false; }
  bool start_object(std::size_t) override { stack.push_back(Put(M::O())); return true; }
  bool end_object() override { stack.pop_back(); return true; }
  bool start_array(std::size_t) override { stack.push_back(Put(M::A())); return true; }
  bool end_array() override { stack.pop_back(); return true; }
  bool key(string_t& v) override { cur_key = v; return true; }
  bool parse_error(std::size_t pos, const std::string& tok, const nlohmann::detail::exception& ex) override { error = "at " + std::to_string(pos) + " '" + tok + "': " + ex.what(); return false; }
};

std::string SameTree(const M& got, const M& want, const std::string& path) {
  // Infinities have no JSON representation, null takes their place.
  if (want.kind == M::kNumber && want.rep == M::kFloat && !std::isfinite(want.f)) { return got.kind == M::kNull ? "" : path + ": not null for a non finite number"; }
  if (got.kind != want.kind) { return path + ": is " + Show(got).substr(0, 100) + " want " + Show(want).substr(0, 100); }
  if (want.kind == M::kNumber && want.single) { return static_cast<float>(got.Num()) == static_cast<float>(want.f) ? "" : path + ": is " + Show(got).substr(0, 100) + " want float " + Show(want).substr(0, 100); }
  if (got.kind == M::kArray) {
    if (got.a.size() != want.a.size()) { return path + ": has " + std::to_string(got.a.size()) + " values, want " + std::to_string(want.a.size()); }
    for (std::size_t k = 0; k < got.a.size(); ++k) { if (auto d = SameTree(got.a[k], want.a[k], path + "[" + std::to_string(k) + "]"); !d.empty()) { return d; } }
    return "";
  }
  if (got.kind == M::kObject) {
    if (got.o.size() != want.o.size()) { return path + ": has " + std::to_string(got.o.size()) + " properties, want " + std::to_string(want.o.size()); }
    for (const auto& [k, e] : want.o) {
      const auto it = got.o.find(k);
      if (it == got.o.end()) { return path + ": no property " + vh::Json(k); }
      if (auto d = SameTree(it->second, e, path + "." + vh::Json(k)); !d.empty()) { return d; }
    }
    return "";
  }
  return Cmp(got, want) == 0 ? "" : path + ": is " + Show(got).substr(0, 100) + " want " + Show(want).substr(0, 100);
}

// "" if `text` is JSON for `m`.
std::string SameText(const std::string& text, const M& m) {
  Sax sax;
  if (!nlohmann::json::sax_parse(text, &sax) || !sax.have_root) { return "not JSON " + sax.error; }
  if (sax.dup) { return "a property name occurs twice"; }
  return SameTree(sax.root, m, "$");
}

}  // namespace
#endif
