// VH-SHARDS: 8
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: random histories (up to 40 steps of 34 operations over three vectors, capacities 0 to 20, elements int, double, string and vector) of a LimitedVector beside a std::vector given the same operations: positions, sizes, contents, iterators, comparisons (also with other capacities) and the arguments left behind must agree; arguments include elements of the vector itself and ranges of forward-only iterators. Also every way of making one. A case is one history.
#include <compare>
#include <limits>
#include <string>
#include <vector>

#include "limvec.h"

namespace {
using mbo::container::LimitedVector;
using mbo::container::MakeLimitedVector;
using mbo::container::ToLimitedVector;
template <typename T, std::size_t N> void One(vh::Rng& r, const char* name) { lv::History<T, N, T>(r, name).Run(); }

void Makers(vh::Rng& r) {
  const int a = static_cast<int>(r.Below(100)), b = static_cast<int>(r.Below(100)), c = static_cast<int>(r.Below(100));
  const std::string ctx = std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c);
  vh::Case("make " + ctx);
  const std::string three = lv::All(std::vector<int>{a, b, c});
  std::string s = lv::Make<std::string>(a), t = lv::Make<std::string>(b);
  const std::string both = lv::All(std::vector<std::string>{s, t});
  { auto v = MakeLimitedVector(a, b, c); static_assert(std::is_same_v<decltype(v)::value_type, int>); vh::Eq("make:capacity", v.capacity(), 3U, ctx); vh::Eq("make:args", lv::All(v), three, ctx); }
  { auto v = MakeLimitedVector(a, static_cast<long>(b), static_cast<short>(c)); static_assert(std::is_same_v<decltype(v)::value_type, long>); vh::Eq("make:args_mixed", lv::All(v), lv::All(std::vector<long>{a, b, c}), ctx); }
  { auto v = MakeLimitedVector(s, t); vh::Eq("make:lvalues", lv::All(v), both, ctx); vh::Eq("make:lvalues_left", lv::All(std::vector<std::string>{s, t}), both, ctx); }
  { auto v = MakeLimitedVector(std::string(s), t); vh::Eq("make:mixed", lv::All(v), both, ctx); vh::Eq("make:lvalues_left", t, lv::Make<std::string>(b), ctx); }
  { auto v = MakeLimitedVector<5>({a, b, c}); vh::Eq("make:list", lv::All(v), three, ctx); vh::Eq("make:list_capacity", v.capacity(), 5U, ctx); }
  { auto v = MakeLimitedVector<4>(s); vh::Eq("make:fill", lv::All(v), lv::All(std::vector<std::string>(4, s)), ctx); }
  { const std::vector<int> src{a, b, c}; auto v = MakeLimitedVector<4>(src.begin(), src.end()); vh::Eq("make:range", lv::All(v), three, ctx); }
  { const std::list<int> src{a, b, c}; LimitedVector<int, 4> v(src.begin(), src.end()); vh::Eq("make:list_range", lv::All(v), three, ctx); }
  { auto v = MakeLimitedVector<int, 7>(); vh::Check(v.empty() && v.capacity() == 7, "make:empty", ctx); }
  { auto v = MakeLimitedVector("x", "yy"); vh::Eq("make:chars", std::string(v[0]) + std::string(v[1]), std::string("xyy"), ctx); }
  { auto v = MakeLimitedVector<std::string>("x", "yy"); vh::Eq("make:chars_as", v[0] + v[1], std::string("xyy"), ctx); }
  { const int arr[3] = {a, b, c}; auto v = ToLimitedVector(arr); vh::Eq("make:array", lv::All(v), three, ctx); }
  { std::string arr[2] = {s, t}; auto v = ToLimitedVector(arr); vh::Eq("make:array", lv::All(v), both, ctx); vh::Eq("make:array_left", arr[0] + arr[1], s + t, ctx); auto w = ToLimitedVector(std::move(arr)); vh::Eq("make:array_moved", lv::All(w), both, ctx); }
  { LimitedVector v{a, b, c}; vh::Eq("make:deduced", lv::All(v), three, ctx); }
  { const LimitedVector<const std::string, 4> v{s, t}; vh::Eq("make:const", lv::All(v), both, ctx); LimitedVector<const std::string, 4> w(v); w.pop_back(); w.push_back(t); vh::Eq("make:const", lv::All(w), both, ctx); vh::Check(w == v && !(w < v), "make:const_eq", ctx); }
  { const LimitedVector<std::string_view, 2> src{std::string_view(s), std::string_view(t)}; const LimitedVector<std::string, 3> v(src); vh::Eq("make:converted", lv::All(v), both, ctx); LimitedVector<std::string, 3> w{t}; w = src; vh::Eq("make:convert_assigned", lv::All(w), both, ctx); vh::Check(v == w && v == src, "make:converted_eq", ctx); }
  {
    // A vector of views made of a list of strings views the strings, which outlive it.
    const auto child = vh::RunChild([&] { const LimitedVector<std::string_view, 2> v{s, t}; _exit(v[0] == s && v[1] == t ? 0 : 1); }, 20);
    vh::Check(child.exited && child.code == 0, "make:views_of_strings", ctx);
  }
  { const std::initializer_list<const char*> l{"p", "q"}; const LimitedVector<std::string, 3> v(l); vh::Eq("make:list_converted", v[0] + v[1], std::string("pq"), ctx); }
  vh::Eval();
  vh::Distinct(vh::HashAll(ctx));
}
}  // namespace

void VhMain() {
  vh::Section("histories", 12000, 800000, [](vh::Rng& r, std::uint64_t) {
    switch (r.Below(9)) {
      case 0: One<int, 0>(r, "int"); break;
      case 1: One<int, 3>(r, "int"); break;
      case 2: One<int, 20>(r, "int"); break;
      case 3: One<std::string, 1>(r, "string"); break;
      case 4: One<std::string, 4>(r, "string"); break;
      case 5: case 6: One<std::string, 9>(r, "string"); break;
      case 7: One<double, 6>(r, "double"); break;
      default: One<std::vector<int>, 5>(r, "vector"); break;
    }
  });
  vh::Section("making", 160, 20000, [](vh::Rng& r, std::uint64_t) { Makers(r); });
}
