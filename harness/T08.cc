// VH-VARIANT: gcc CXX=g++ SAN=undefined OPT=-O0
// VH-VARIANT: clang CXX=clang++ SAN=address,undefined OPT=-O1
// VH-CXXFLAGS: -g0 -ftemplate-depth=2500
// VH-RULE: compile-time tables (every condition list up to 6 conditions; single and random true positions in lists up to 64; every subset of 8 candidate types as a variant) compared with a run-time evaluation of the same list; variants visited with overload sets whose handlers record which ran
#include <memory>
#include <string>
#include <variant>
#include <vector>

#include "mbo/types/cases.h"
#include "mbo/types/variant.h"
#include "vh.h"

namespace {
using std::size_t;
using namespace mbo::types;  // NOLINT

template <size_t I>
struct Tag {};
struct Incomplete;
// What a selected type is: I for Tag<I - 1>, 0 for void.
template <typename T> struct Id { static constexpr int value = -1; };
template <> struct Id<void> { static constexpr int value = 0; };
template <size_t I> struct Id<Tag<I>> { static constexpr int value = static_cast<int>(I) + 1; };
template <> struct Id<int&> { static constexpr int value = 1001; };
template <> struct Id<const char[3]> { static constexpr int value = 1002; };
template <> struct Id<Incomplete> { static constexpr int value = 1003; };
template <> struct Id<void()> { static constexpr int value = 1004; };
template <> struct Id<const Tag<0>&&> { static constexpr int value = 1005; };

struct Row {
  std::string what;
  long got, want;
};
std::vector<Row>& Rows() { static std::vector<Row> r; return r; }
void Put(const char* what, std::uint64_t a, std::uint64_t b, long got, long want) {
  Rows().push_back({std::string(what) + " " + std::to_string(a) + " of " + std::to_string(b), got, want});
}
constexpr long First(std::uint64_t mask, size_t n) {
  for (size_t i = 0; i < n && i < 64; ++i) { if (((mask >> i) & 1U) != 0) { return static_cast<long>(i) + 1; } }
  return 0;
}
constexpr bool Bit(std::uint64_t mask, size_t i) { return i < 64 && ((mask >> i) & 1U) != 0; }

// Case types which are not IfThen: anything with `value` and `type`.
template <bool V, typename T>
struct Custom { static constexpr bool value = V; using type = T; int unused = 0; };
template <bool V, typename T>
struct Derived : IfFalseThenVoid { static constexpr bool value = V; using type = T; };

template <std::uint64_t M, size_t... I>
void List(std::index_sequence<I...> /*unused*/) {
  constexpr size_t kN = sizeof...(I);
  constexpr long kWant = First(M, kN);
  Put("cases", M, kN, Id<Cases<IfThen<Bit(M, I), Tag<I>>...>>::value, kWant);
  Put("case_index", M, kN, static_cast<long>(CaseIndex<Bit(M, I)...>), kWant);
  Put("cases_else", M, kN, Id<Cases<IfThen<Bit(M, I), Tag<I>>..., IfElse<Tag<777>>>>::value, kWant == 0 ? 778 : kWant);
  Put("cases_true_void", M, kN, Id<Cases<IfThen<Bit(M, I), Tag<I>>..., IfTrueThenVoid, IfElse<Tag<777>>>>::value, kWant);
  Put("cases_skip", M, kN, Id<Cases<IfFalseThenVoid, IfThen<Bit(M, I), Tag<I>>..., IfFalseThenVoid, IfElse<int&>>>::value, kWant == 0 ? 1001 : kWant);
  Put("cases_custom", M, kN, Id<Cases<std::conditional_t<I % 2 == 0, Custom<Bit(M, I), Tag<I>>, Derived<Bit(M, I), Tag<I>>>...>>::value, kWant);
}
template <size_t N, size_t... M>
void AllMasks(std::index_sequence<M...> /*unused*/) { (List<M>(std::make_index_sequence<N>{}), ...); }
template <size_t... N>
void AllSmall(std::index_sequence<N...> /*unused*/) { (AllMasks<N>(std::make_index_sequence<(1U << N)>{}), ...); }

constexpr std::uint64_t Rnd(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27U)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31U);
}
template <size_t... K>
void Long(std::index_sequence<K...> /*unused*/) {
  (List<1ULL << (K * 3)>(std::make_index_sequence<64>{}), ...);
  (List<Rnd(K) & Rnd(K + 99) & Rnd(K + 199) & (~0ULL << (K * 3))>(std::make_index_sequence<7 + K * 2>{}), ...);
}

// Variant membership: every subset of 8 types.
using Types = std::tuple<int, unsigned, const int, std::string, const char*, double, std::vector<int>, std::monostate>;
template <std::uint64_t M, typename Picked, size_t I>
struct Subset;
template <std::uint64_t M, typename... P, size_t I>
struct Subset<M, std::tuple<P...>, I> : Subset<M, std::conditional_t<Bit(M, I), std::tuple<P..., std::tuple_element_t<I, Types>>, std::tuple<P...>>, I + 1> {};
template <std::uint64_t M, typename... P>
struct Subset<M, std::tuple<P...>, 8> { using type = std::variant<P...>; };
template <std::uint64_t M, size_t... I>
void Members(std::index_sequence<I...> /*unused*/) {
  using V = typename Subset<M, std::tuple<>, 0>::type;
  (Put("variant_member", M, I, IsVariantMemberType<V, std::tuple_element_t<I, Types>>, Bit(M, I)), ...);
  Put("variant_member_other", M, 100, IsVariantMemberType<V, long>, false);
  Put("variant_member_ref", M, 101, IsVariantMemberType<V, int&>, false);
  Put("variant_member_const", M, 102, IsVariantMemberType<V, const std::string>, false);
  Put("variant_member_self", M, 103, IsVariantMemberType<V, V>, false);
  Put("is_variant", M, 104, IsVariant<V>, true);
  Put("is_variant_ref", M, 105, IsVariant<V&>, false);
}
template <size_t... M>
void AllSubsets(std::index_sequence<M...> /*unused*/) { (Members<M + 1>(std::make_index_sequence<8>{}), ...); }

struct FromVariant : std::variant<int, std::string> { using variant::variant; };

// Handlers.
struct Calls {
  std::vector<int> seq;
  std::vector<const void*> where;
};
using V5 = std::variant<int, double, std::string, std::unique_ptr<int>, std::vector<int>>;
V5 Make(size_t k, vh::Rng& r) {
  switch (k) {
    case 0: return static_cast<int>(r.Below(1000));
    case 1: return 0.5 * static_cast<double>(r.Below(1000));
    case 2: return r.Bytes(r.Below(40));
    case 3: return std::make_unique<int>(static_cast<int>(r.Below(1000)));
    default: return std::vector<int>(r.Below(20), 7);
  }
}
const void* Address(const V5& v) { return std::visit([](const auto& x) -> const void* { return &x; }, v); }

void Visit(vh::Rng& r) {
  const size_t k = r.Below(5);
  V5 v = Make(k, r);
  Calls c;
  auto note = [&c](int id, const void* p) { c.seq.push_back(id); c.where.push_back(p); };
  auto expect = [&](const char* what, int id, int result) {
    vh::Eval();
    vh::Count(std::string("visited_") + what);
    const bool ok = c.seq.size() == 1 && c.seq[0] == id && result == id && (c.where[0] == nullptr || c.where[0] == Address(v));
    if (!ok) {
      std::string s;
      for (const int i : c.seq) { s += " " + std::to_string(i); }
      vh::Fail(std::string("overloaded:") + what, "alternative " + std::to_string(k) + " expected handler " + std::to_string(id) + " called" + s + " result " + std::to_string(result));
    }
    vh::Distinct(vh::HashAll(std::string_view(what), k));
    c = {};
  };
  {  // One handler per alternative, by const reference; all orders of declaration must behave alike.
    const int got = std::visit(Overloaded{
        [&](const std::vector<int>& x) { note(4, &x); return 4; }, [&](const int& x) { note(0, &x); return 0; },
        [&](const std::unique_ptr<int>& x) { note(3, &x); return 3; }, [&](const double& x) { note(1, &x); return 1; },
        [&](const std::string& x) { note(2, &x); return 2; }}, v);
    expect("const_ref", static_cast<int>(k), got);
  }
  {  // A generic fallback behind two exact handlers.
    const int got = std::visit(Overloaded{[&](const auto& x) { note(9, &x); return 9; }, [&](const std::string& x) { note(2, &x); return 2; }, [&](const double& x) { note(1, &x); return 1; }}, std::as_const(v));
    expect("fallback", k == 2 || k == 1 ? static_cast<int>(k) : 9, got);
  }
  {  // Mutable references: changes reach the variant.
    const int before = k == 0 ? std::get<0>(v) : 0;
    const int got = std::visit(Overloaded{
        [&](int& x) { note(0, &x); ++x; return 0; }, [&](double& x) { note(1, &x); x += 1; return 1; }, [&](std::string& x) { note(2, &x); x += '!'; return 2; },
        [&](std::unique_ptr<int>& x) { note(3, &x); return 3; }, [&](std::vector<int>& x) { note(4, &x); x.push_back(1); return 4; }}, v);
    expect("mutable", static_cast<int>(k), got);
    if (k == 0) { vh::Eq("overloaded:mutable_effect", std::get<0>(v), before + 1); }
    if (k == 2) { vh::Check(std::get<2>(v).ends_with('!'), "overloaded:mutable_effect", "string not changed"); }
  }
  {  // Const and non-const handlers of one type: the qualification of the variant decides.
    auto set = Overloaded{[&](int& x) { note(20, &x); return 20; }, [&](const int& x) { note(21, &x); return 21; }, [&](const auto& x) { note(9, &x); return 9; }};
    int got = std::visit(set, std::as_const(v));
    expect("const_choice", k == 0 ? 21 : 9, got);
    if (k == 0) { got = std::visit(set, v); expect("nonconst_choice", 20, got); }
  }
  {  // Handlers with state, moved into the set; stateful sets can be reused and copied.
    auto set = Overloaded{[n = 0, &note](const int&) mutable { note(0, nullptr); return ++n; }, [](const auto&) { return -1; }};
    std::variant<int, std::string> w = 1;
    vh::Eq("overloaded:state", std::visit(set, w), 1);
    vh::Eq("overloaded:state", std::visit(set, w), 2);
    auto copy = set;
    vh::Eq("overloaded:state_copy", std::visit(copy, w), 3);
    vh::Eq("overloaded:state_after_copy", std::visit(set, w), 3);
    vh::Eq("overloaded:state_calls", c.seq.size(), size_t{4});
    c = {};
  }
  {  // Two variants at once.
    const size_t k2 = r.Below(2);
    std::variant<int, std::string> a = k2 == 0 ? std::variant<int, std::string>(1) : std::variant<int, std::string>("x");
    const size_t k3 = r.Below(2);
    std::variant<int, std::string> b = k3 == 0 ? std::variant<int, std::string>(1) : std::variant<int, std::string>("x");
    const int got = std::visit(Overloaded{
        [&](int, int) { note(0, nullptr); return 0; }, [&](int, const std::string&) { note(1, nullptr); return 1; },
        [&](const std::string&, int) { note(2, nullptr); return 2; }, [&](const std::string&, const std::string&) { note(3, nullptr); return 3; }}, a, b);
    expect("two", static_cast<int>(k2 * 2 + k3), got);
  }
  {  // Move-only results and rvalue alternatives.
    V5 w = Make(3, r);
    const int* p = std::get<3>(w).get();
    auto got = std::visit(Overloaded{[](std::unique_ptr<int>&& x) { return std::move(x); }, [](auto&&) { return std::unique_ptr<int>(); }}, std::move(w));
    vh::Eq("overloaded:move", static_cast<const void*>(got.get()), static_cast<const void*>(p));
  }
}
}  // namespace

void VhMain() {
  AllSmall(std::make_index_sequence<7>{});
  Long(std::make_index_sequence<21>{});
  AllSubsets(std::make_index_sequence<255>{});
  Put("cases_empty", 0, 0, Id<Cases<>>::value, 0);
  Put("case_index_empty", 0, 0, CaseIndex<>, 0);
  Put("cases_unusual", 1, 1, Id<Cases<IfThen<true, int&>, IfElse<void>>>::value, 1001);
  Put("cases_unusual", 2, 2, Id<Cases<IfThen<false, int&>, IfThen<true, const char[3]>>>::value, 1002);
  Put("cases_unusual", 3, 3, Id<Cases<IfThen<false, void>, IfElse<Incomplete>>>::value, 1003);
  Put("cases_unusual", 4, 4, Id<Cases<IfThen<true, void()>, IfElse<Incomplete>>>::value, 1004);
  Put("cases_unusual", 5, 5, Id<Cases<IfThen<true, const Tag<0>&&>>>::value, 1005);
  Put("cases_unusual", 6, 6, Id<Cases<IfThen<true, void>, IfElse<Incomplete>>>::value, 0);
  Put("is_variant", 0, 1, IsVariant<int>, false);
  Put("is_variant", 0, 2, IsVariant<std::tuple<int>>, false);
  Put("is_variant", 0, 3, IsVariant<FromVariant>, false);
  Put("is_variant", 0, 4, IsVariant<std::variant<int>*>, false);
  Put("is_variant", 0, 5, IsVariant<std::variant<std::variant<int>>>, true);
  Put("variant_member_nested", 0, 6, IsVariantMemberType<std::variant<std::variant<int>>, int>, false);
  Put("variant_member_nested", 0, 7, IsVariantMemberType<std::variant<double, std::variant<int>>, std::variant<int>>, true);
  Put("variant_member_duplicates", 0, 8, IsVariantMemberType<std::variant<int, int, double, double>, double>, true);
  vh::Once("table", [](vh::Rng&) {
    for (size_t i = 0; i < Rows().size(); ++i) {
      const Row& row = Rows()[i];
      vh::Eq(row.what.substr(0, row.what.find(' ')), row.got, row.want, row.what);
      vh::Eval();
      vh::Distinct(vh::HashOf(row.what));
      vh::Count("compile_time_answers");
      if (i % 1500 == 7) { vh::SampleText(row.what + " -> " + std::to_string(row.got)); }
    }
  });
  vh::Section("visit", 4000, 40000, [](vh::Rng& r, std::uint64_t) { Visit(r); });
}
