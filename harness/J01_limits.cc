// VH-SRC: mbo/types/stringify.cc mbo/log/demangle.cc
// VH-OPT: -O0
// VH-RULE: (limits) every operation which the kind or size of a value does not allow, on random values of every other kind, in a child process: the program stops (SIGABRT), nothing is returned and nothing replaced; and moved from values of every kind: they answer, compare, copy, clear and take new data as any value does.
#include <csignal>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "mbo/json/json.h"
#include "vh.h"

namespace {
using mbo::json::Json;
enum K { kNull, kArray, kBool, kSigned, kUnsigned, kFloat, kObject, kString };
const char* const kNames[] = {"null", "array", "bool", "signed", "unsigned", "float", "object", "string"};
Json Make(K k, std::size_t n) {
  Json j;
  switch (k) {
    case kNull: break;
    case kArray: j.MakeArray(); for (std::size_t i = 0; i < n; ++i) { j.push_back(static_cast<int>(i)); } break;
    case kBool: j = n % 2 == 0; break;
    case kSigned: j = -static_cast<int>(n); break;
    case kUnsigned: j = static_cast<unsigned>(n); break;
    case kFloat: j = 0.5 + static_cast<double>(n); break;
    case kObject: j.MakeObject(); for (std::size_t i = 0; i < n; ++i) { j["p" + std::to_string(i)] = static_cast<int>(i); } break;
    case kString: j = std::string(n, 's'); break;
  }
  return j;
}
template <typename Range> std::size_t Walk(Range&& range) { std::size_t n = 0; for (auto&& v : range) { (void)v; ++n; } return n; }

struct Op {
  const char* name;
  bool (*refused)(K k);  // Whether values of this kind refuse it.
  void (*fn)(Json& j, const Json& c, std::size_t n);
};
bool NoArray(K k) { return k != kArray; }
bool NoArrayNull(K k) { return k != kArray && k != kNull; }
bool NoObject(K k) { return k != kObject; }
bool NoObjectNull(K k) { return k != kObject && k != kNull; }
bool NoStringNull(K k) { return k != kString && k != kNull; }
bool NoContainer(K k) { return k != kArray && k != kObject; }
bool Any(K) { return true; }
const Op kOps[] = {
    {"MakeArray", NoArrayNull, [](Json& j, const Json&, std::size_t) { j.MakeArray(); }},
    {"MakeObject", NoObjectNull, [](Json& j, const Json&, std::size_t) { j.MakeObject(); }},
    {"MakeString", NoStringNull, [](Json& j, const Json&, std::size_t) { j.MakeString("new"); }},
    {"push_back", NoArrayNull, [](Json& j, const Json&, std::size_t) { j.push_back(1); }},
    {"emplace_back", NoArrayNull, [](Json& j, const Json&, std::size_t) { j.emplace_back("x"); }},
    {"pop_back", NoArray, [](Json& j, const Json&, std::size_t) { j.pop_back(); }},
    {"emplace", NoObjectNull, [](Json& j, const Json&, std::size_t) { j.emplace("p0", 1); }},
    {"property", NoObjectNull, [](Json& j, const Json&, std::size_t) { j["p0"] = 1; }},
    {"at_property", NoObjectNull, [](Json& j, const Json&, std::size_t) { j.at("p0") = 1; }},
    {"const_property", Any, [](Json&, const Json& c, std::size_t) { (void)c["absent"].size(); }},
    {"const_at_property", Any, [](Json&, const Json& c, std::size_t n) { (void)c.at("p" + std::to_string(n)).size(); }},
    {"index", Any, [](Json& j, const Json&, std::size_t n) { j[n] = 1; }},
    {"index_more", Any, [](Json& j, const Json&, std::size_t n) { j.at(n + (n % 3 == 0 ? 1 : static_cast<std::size_t>(0) - 1 - n - n)) = 1; }},
    {"const_index", Any, [](Json&, const Json& c, std::size_t n) { (void)c[n].size(); }},
    {"const_at_index", Any, [](Json&, const Json& c, std::size_t n) { (void)c.at(n + n % 5).size(); }},
    {"resize", NoArray, [](Json& j, const Json&, std::size_t n) { j.resize(n); }},
    {"resize_value", NoArray, [](Json& j, const Json&, std::size_t n) { j.resize(n, 7); }},
    {"begin", NoArray, [](Json& j, const Json&, std::size_t) { (void)(j.begin() == j.end()); }},
    {"end", NoArray, [](Json& j, const Json&, std::size_t) { (void)(j.end() == j.end()); }},
    {"const_begin", NoArray, [](Json&, const Json& c, std::size_t) { (void)(c.begin() == c.end()); }},
    {"const_end", NoArray, [](Json&, const Json& c, std::size_t) { (void)(c.end() == c.end()); }},
    {"cbegin", NoArray, [](Json& j, const Json&, std::size_t) { (void)(j.cbegin() == j.cend()); }},
    {"rbegin", NoArray, [](Json& j, const Json&, std::size_t) { (void)(j.rbegin() == j.rend()); }},
    {"const_rbegin", NoArray, [](Json&, const Json& c, std::size_t) { (void)(c.rbegin() == c.rend()); }},
    {"crbegin", NoArray, [](Json& j, const Json&, std::size_t) { (void)(j.crbegin() == j.crend()); }},
    {"values", NoContainer, [](Json& j, const Json&, std::size_t) { (void)Walk(j.values()); }},
    {"const_values", NoContainer, [](Json&, const Json& c, std::size_t) { (void)Walk(c.values()); }},
    {"array_values", NoArray, [](Json& j, const Json&, std::size_t) { (void)Walk(j.array_values()); }},
    {"const_array_values", NoArray, [](Json&, const Json& c, std::size_t) { (void)Walk(c.array_values()); }},
    {"property_names", NoObject, [](Json&, const Json& c, std::size_t) { (void)Walk(c.property_names()); }},
    {"property_pairs", NoObject, [](Json& j, const Json&, std::size_t) { (void)Walk(j.property_pairs()); }},
    {"const_property_pairs", NoObject, [](Json&, const Json& c, std::size_t) { (void)Walk(c.property_pairs()); }},
    {"property_values", NoObject, [](Json& j, const Json&, std::size_t) { (void)Walk(j.property_values()); }},
    {"const_property_values", NoObject, [](Json&, const Json& c, std::size_t) { (void)Walk(c.property_values()); }},
    {"serialize", NoObjectNull, [](Json&, const Json& c, std::size_t) { (void)c.Serialize(); }},
    {"stream", NoObjectNull, [](Json&, const Json& c, std::size_t) { std::ostringstream os; c.Stream(os, Json::SerializeMode::kPretty); }},
};
void Refused(vh::Rng& r, std::uint64_t i) {
  const Op& op = kOps[i % std::size(kOps)];
  K k;
  do { k = static_cast<K>(r.Below(8)); } while (!op.refused(k));
  // An index which null takes makes an array without elements.
  const std::size_t n = k == kNull ? 0 : r.Below(12);
  const std::string ctx = std::string(op.name) + " of " + kNames[k] + " " + std::to_string(n);
  vh::Case(ctx);
  const auto c = vh::RunChild([&] {
    Json j = Make(k, n);
    op.fn(j, std::as_const(j), n);
    _exit(42);
  }, 20);
  vh::Check(!c.exited && c.sig == SIGABRT && c.Stopped(), std::string("refused:") + op.name, [&] { return ctx + ": exit " + std::to_string(c.code) + " signal " + std::to_string(c.sig) + " " + c.err.substr(0, 400); });
  vh::Eval();
  vh::Count("refused");
  vh::Distinct(vh::HashAll(ctx));
}
// What a value must always allow, whatever it holds.
void Usable(vh::Rng& r, Json& j, const std::string& ctx) {
  const Json& c = j;
  vh::Check(static_cast<int>(c.IsNull()) + c.IsArray() + c.IsBool() + c.IsNumber() + c.IsObject() + c.IsString() == 1, "moved:kind", ctx);
  (void)c.GetKind();
  vh::Check(c.empty() == (c.size() == 0), "moved:size", ctx);
  vh::Check(c == c && (c <=> c) == std::strong_ordering::equal, "moved:equal", ctx);
  const Json copy(c);
  vh::Check(copy == c && copy.size() == c.size(), "moved:copy", ctx);
  if (c.IsArray() || c.IsObject()) { vh::Check(Walk(c.values()) == c.size(), "moved:values", ctx); }
  if (c.IsNull() || c.IsObject()) { vh::Check(!c.Serialize().empty(), "moved:serialize", ctx); }
  const std::size_t n = c.size();
  switch (r.Below(6)) {
    case 0: if (c.IsNull() || c.IsArray()) { j.push_back("x"); vh::Check(c.size() == n + 1 && c[n] == "x", "moved:push_back", ctx); } break;
    case 1: if (c.IsNull() || c.IsObject()) { j["new"] = 3; vh::Check(c.contains("new") && c["new"] == 3, "moved:property", ctx); } break;
    case 2: j.clear(); vh::Check(c.empty(), "moved:clear", ctx); break;
    case 3: j = 7; vh::Check(c == 7, "moved:assign", ctx); break;
    case 4: j.Reset(); j.MakeArray(); vh::Check(c.IsArray() && c.empty(), "moved:reset", ctx); break;
    default: { Json other = Make(kArray, 3); other = c; vh::Check(other == c, "moved:assigned", ctx); j = std::move(other); vh::Check(c == copy, "moved:back", ctx); break; }
  }
}
void Moved(vh::Rng& r, std::uint64_t) {
  const K k = static_cast<K>(r.Below(8)), l = static_cast<K>(r.Below(8));
  const std::size_t n = r.Below(5), m = r.Below(5);
  const std::size_t how = r.Below(6);
  const std::string ctx = std::string(kNames[k]) + " " + std::to_string(n) + " moved " + std::to_string(how) + " to " + kNames[l] + " " + std::to_string(m);
  vh::Case(ctx);
  Json j = Make(k, n);
  const Json want = Make(k, n);
  switch (how) {
    case 0: { const Json to(std::move(j)); vh::Check(to == want, "moved:constructed", ctx); break; }
    case 1: { Json to = Make(l, m); to = std::move(j); vh::Check(to == want, "moved:assigned", ctx); break; }
    case 2: { Json to = Make(l, m); const Json had = to; std::swap(j, to); vh::Check(to == want && j == had, "moved:swapped", ctx); std::swap(j, to); vh::Check(j == want, "moved:swapped", ctx); break; }
    case 3: { std::vector<Json> to; to.push_back(std::move(j)); for (int i = 0; i < 9; ++i) { to.push_back(Make(l, m)); } vh::Check(to[0] == want, "moved:vector", ctx); break; }
    case 4: { Json to; to["x"] = std::move(j); vh::Check(std::as_const(to)["x"] == want, "moved:into_object", ctx); break; }
    default: { Json to; to.push_back(std::move(j)); vh::Check(std::as_const(to)[0] == want, "moved:into_array", ctx); break; }
  }
  Usable(r, j, ctx);
  vh::Eval();
  vh::Count("moved");
  vh::Distinct(vh::HashAll(ctx));
}
}  // namespace

void VhMain() {
  vh::Section("refused", 360, 3600, Refused);
  vh::Section("moved", 6000, 60000, Moved);
}
