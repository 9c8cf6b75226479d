// VH-SHARDS: 4
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clangO2 CXX=clang++ OPT=-O2 SAN=none
// VH-RULE: every ordered pair of 15 scalar types (all integer widths and signs, character types, bool, float, double, long double, enums and pointers with themselves), values from the limits of every type +-2, powers of two +-1, fractions, denormals, infinities, signed zeros, NaNs of either sign, and random bits; oracle is exact arithmetic on 128 bit integers plus a fraction. CompareLess (homogeneous and mixed) over numbers, strings and user types with weak and partial orders, used also as the comparator of sorted containers. A case is (type pair, value pair).
#include <algorithm>
#include <bit>
#include <cmath>
#include <compare>
#include <limits>
#include <set>
#include <string>
#include <string_view>
#include <tuple>

#include "mbo/types/compare.h"
#include "vh.h"

namespace {
namespace mt = mbo::types;
using I = __int128;

// An exact number: NaN, +-infinity or integer + fraction.
struct Num {
  int cls = 1;  // -2: -inf, 1: finite, 2: +inf, 3: NaN
  I whole = 0;
  long double frac = 0;  // In (-1, 1), of the sign of the number.
};
template <typename T>
Num ToNum(T v) {
  Num n;
  if constexpr (std::is_floating_point_v<T>) {
    if (v != v) { n.cls = 3; return n; }
    const long double l = v;
    if (l > std::numeric_limits<long double>::max()) { n.cls = 2; return n; }
    if (l < -std::numeric_limits<long double>::max()) { n.cls = -2; return n; }
    // Scale down values that do not fit (their order with anything that fits is kept; two of them are compared as such).
    if (l >= 0x1p100L || l <= -0x1p100L) { n.whole = l > 0 ? I(1) << 110 : -(I(1) << 110); n.frac = l; return n; }
    const long double f = std::trunc(l);
    n.whole = static_cast<I>(f);
    n.frac = l - f;
  } else {
    n.whole = static_cast<I>(v);
  }
  return n;
}
int Cmp3(long double a, long double b) { return a < b ? -1 : a > b ? 1 : 0; }
template <typename A, typename B>
int Want(A a, B b) {
  if constexpr ((std::is_same_v<A, bool> && std::is_integral_v<B>) || (std::is_same_v<B, bool> && std::is_integral_v<A>)) {
    // Documented: compared as truth values.
    return int(a != 0) - int(b != 0);
  } else {
    const Num x = ToNum(a), y = ToNum(b);
    if (x.cls != y.cls) { return x.cls < y.cls ? -1 : 1; }
    if (x.cls != 1) { return 0; }
    if (x.whole != y.whole) { return x.whole < y.whole ? -1 : 1; }
    return Cmp3(x.frac, y.frac);
  }
}
int Sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

std::vector<long double>& Pool() {
  static std::vector<long double> p = [] {
    std::vector<long double> r;
    for (int b : {0, 1, 2, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127}) {
      for (long double d : {-2.0L, -1.0L, 0.0L, 1.0L, 2.0L}) { r.push_back(std::ldexp(1.0L, b) + d); r.push_back(-std::ldexp(1.0L, b) + d); }
    }
    for (long double x : {0.0L, -0.0L, 0.5L, -0.5L, 1.5L, 0x1p-126L, 0x1p-149L, 0x1p-1022L, 0x1p-1074L, -0x1p-1074L, 1e30L, -1e30L, 3.4e38L, -3.4e38L, 1.7e308L, 1e4000L, -1e4000L, 0.1L, 254.5L, 255.5L, 65535.5L, -32768.5L, 2147483647.5L, 9007199254740992.5L}) { r.push_back(x); }
    const long double inf = std::numeric_limits<long double>::infinity();
    r.push_back(inf); r.push_back(-inf);
    const long double nan = std::numeric_limits<long double>::quiet_NaN();
    r.push_back(nan); r.push_back(-nan);
    return r;
  }();
  return p;
}
template <typename T>
T Value(vh::Rng& r) {
  if constexpr (std::is_same_v<T, bool>) { return r.Coin(); }
  else if constexpr (std::is_integral_v<T>) {
    switch (r.Below(6)) {
      case 0: return static_cast<T>(r.Next());
      case 1: return static_cast<T>(static_cast<I>(std::numeric_limits<T>::max()) - static_cast<I>(r.Below(3)));
      case 2: return static_cast<T>(static_cast<I>(std::numeric_limits<T>::min()) + static_cast<I>(r.Below(3)));
      case 3: return static_cast<T>(static_cast<std::int64_t>(r.Below(7)) - 3);
      case 4: {
        const I v = (I(1) << r.Below(65)) + static_cast<I>(r.Below(3)) - 1;
        return static_cast<T>(r.Coin() ? v : -v);
      }
      default: {
        const long double v = r.Pick(Pool());
        return v > -0x1p63L && v < 0x1p63L ? static_cast<T>(static_cast<std::int64_t>(v)) : static_cast<T>(r.Next() >> r.Below(64));
      }
    }
  } else {
    switch (r.Below(5)) {
      case 4: {  // The special values often meet each other.
        using L = std::numeric_limits<T>;
        const T special[] = {L::quiet_NaN(), -L::quiet_NaN(), L::infinity(), -L::infinity(), T(0), -T(0), L::max(), L::lowest(), L::denorm_min(), -L::denorm_min(), L::min(), -L::min()};
        return special[r.Below(std::size(special))];
      }
      case 0: case 1: {
        const long double v = r.Pick(Pool());
        // Out of range of T would be undefined: go to infinity explicitly.
        if (v == v && (v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::lowest())) { return v > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); }
        return static_cast<T>(v);
      }
      case 2:
        if constexpr (sizeof(T) == 4) { return std::bit_cast<T>(static_cast<std::uint32_t>(r.Next())); }
        else if constexpr (sizeof(T) == 8) { return std::bit_cast<T>(r.Next()); }
        else { return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.Next())), static_cast<int>(r.Range(-100, 100))); }
      default: return static_cast<T>(static_cast<std::int64_t>(r.Next() >> r.Below(64)) * (r.Coin() ? 1 : -1));
    }
  }
}
// A value of B close to `a`.
template <typename B, typename A>
B Near(vh::Rng& r, A a) {
  if constexpr (std::is_floating_point_v<B>) {
    if (!(a == a) && r.Coin()) { return r.Coin() ? std::numeric_limits<B>::quiet_NaN() : -std::numeric_limits<B>::quiet_NaN(); }
  }
  if (!(a == a) || static_cast<long double>(a) > 0x1p63L || static_cast<long double>(a) < -0x1p63L) { return Value<B>(r); }
  if constexpr (std::is_same_v<B, bool>) { return a != 0; }
  else if constexpr (std::is_integral_v<B>) { return static_cast<B>(static_cast<std::uint64_t>(static_cast<I>(a)) + static_cast<std::uint64_t>(static_cast<std::int64_t>(r.Below(3)) - 1)); }
  else { const B b = static_cast<B>(a); return r.Coin() ? b : std::nextafter(b, r.Coin() ? B(1e30) : B(-1e30)); }
}

template <typename T>
const char* Name() {
  if constexpr (std::is_same_v<T, bool>) { return "bool"; }
  else if constexpr (std::is_same_v<T, float>) { return "float"; }
  else if constexpr (std::is_same_v<T, double>) { return "double"; }
  else if constexpr (std::is_same_v<T, long double>) { return "long double"; }
  else if constexpr (std::is_signed_v<T>) { return sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64"; }
  else { return sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64"; }
}
template <typename T>
std::string Str(T v) {
  char b[80];
  if constexpr (std::is_floating_point_v<T>) { std::snprintf(b, sizeof(b), "%La", static_cast<long double>(v)); return b; }
  else { return std::to_string(static_cast<long long>(v)) + "/" + std::to_string(static_cast<unsigned long long>(v)); }
}

struct Seen {
  const char* an;
  const char* bn;
  std::string a, b;
  bool flt;
  int want, scalar, reversed, arithmetic, integral, flo;  // 9: not applicable
  int own, own_rev, cmp, cmp_rev;                          // 9: not comparable, 5: unordered
  bool less, less_rev;
};
void Verify(const Seen& s) {
  const auto ctx = [&] { return std::string(s.an) + " " + s.a + " vs " + s.bn + " " + s.b + " want " + std::to_string(s.want); };
  vh::Check(s.scalar == s.want, s.flt ? "scalar:float" : "scalar:int", [&] { return ctx() + " CompareScalar gives " + std::to_string(s.scalar); });
  vh::Check(s.reversed == -s.want, "scalar:antisymmetry", [&] { return ctx() + " reversed gives " + std::to_string(s.reversed); });
  if (s.arithmetic != 9) { vh::Check(s.arithmetic == s.want, "arithmetic", ctx); }
  if (s.integral != 9) { vh::Check(s.integral == s.want, "integral", ctx); }
  if (s.flo != 9) { vh::Check(s.flo == s.want, "float", ctx); }
  if (s.own != 9) {
    vh::Check(s.cmp == s.own && s.less == (s.own == -1), "less:own", ctx);
    vh::Check(s.cmp_rev == s.own_rev && s.less_rev == (s.own_rev == -1), "less:own:reversed", ctx);
    vh::Count("less_pairs");
  }
  vh::Eval();
  vh::Distinct(vh::HashAll(std::string(s.an) + s.bn + s.a + "|" + s.b));
}
template <typename O>
int Sg(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 5; }
template <typename A, typename B>
void Pair(vh::Rng& r, unsigned n) {
  std::uint64_t less = 0, eq = 0;
  for (unsigned i = 0; i < n; ++i) {
    const A a = Value<A>(r);
    const B b = r.Coin() ? Value<B>(r) : Near<B>(r, a);
    Seen s{Name<A>(), Name<B>(), Str(a), Str(b), std::is_floating_point_v<A> || std::is_floating_point_v<B>, Want(a, b), Sgn(mt::CompareScalar(a, b)), Sgn(mt::CompareScalar(b, a)), 9, 9, 9, 9, 9, 9, 9, false, false};
    if constexpr (mt::IsArithmetic<A> && mt::IsArithmetic<B>) { s.arithmetic = Sgn(mt::CompareArithmetic(a, b)); }
    if constexpr (mt::IsIntegral<A> && mt::IsIntegral<B>) { s.integral = Sgn(mt::CompareIntegral(a, b)); }
    if constexpr (std::is_floating_point_v<A> && std::is_same_v<A, B>) { s.flo = Sgn(mt::CompareFloat(a, b)); }
    if constexpr (std::three_way_comparable_with<A, B>) {
      const mt::CompareLess<A> l;
      s.own = Sg(a <=> b); s.own_rev = Sg(b <=> a);
      s.cmp = Sg(l.Compare(a, b)); s.cmp_rev = Sg(l.Compare(b, a));
      s.less = l(a, b); s.less_rev = l(b, a);
    }
    Verify(s);
    less += s.want < 0; eq += s.want == 0;
  }
  vh::Count("less", less);
  vh::Count("equal", eq);
  if constexpr (std::is_signed_v<A> != std::is_signed_v<B>) { vh::Count("mixed_sign", n); }
  if constexpr (std::is_floating_point_v<A> != std::is_floating_point_v<B>) { vh::Count("int_float", n); }
}
template <typename F, typename... T>
void Each(std::tuple<T...>*, F&& f) { (f(static_cast<T*>(nullptr)), ...); }
using Types = std::tuple<bool, char, signed char, unsigned char, char16_t, short, unsigned short, int, unsigned, long, unsigned long, unsigned long long, float, double, long double>;

struct Weak {
  std::string s;
  static std::string Low(std::string v) { for (char& c : v) { c = static_cast<char>(std::tolower(static_cast<unsigned char>(c))); } return v; }
  std::weak_ordering operator<=>(const Weak& o) const { const int c = Low(s).compare(Low(o.s)); return c < 0 ? std::weak_ordering::less : c > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; }
  bool operator==(const Weak& o) const { return (*this <=> o) == 0; }
};
struct Part {
  double a = 0; int b = 0;
  auto operator<=>(const Part&) const = default;
};
enum class Scoped : signed char { kA = -3, kB = 0, kC = 5 };
enum Plain { kP0, kP1, kP9 = 9 };
}  // namespace

void VhMain() {
  vh::Section("pairs", 60, 1500, [](vh::Rng& r, std::uint64_t) {
    Each(static_cast<Types*>(nullptr), [&]<typename A>(A*) { Each(static_cast<Types*>(nullptr), [&]<typename B>(B*) { Pair<A, B>(r, 60); }); });
  });
  // Total order over a mixed multiset of floats: sorting by it gives the one order the oracle gives.
  vh::Section("order", 300, 6000, [](vh::Rng& r, std::uint64_t) {
    auto one = [&]<typename T>(T*) {
      std::vector<T> v(r.Below(60) + 3);
      for (T& x : v) { x = Value<T>(r); }
      auto w = v;
      std::stable_sort(v.begin(), v.end(), [](T a, T b) { return mt::CompareFloat(a, b) < 0; });
      std::stable_sort(w.begin(), w.end(), [](T a, T b) { return Want(a, b) < 0; });
      for (std::size_t i = 0; i < v.size(); ++i) {
        vh::Check(std::signbit(v[i]) == std::signbit(w[i]) && (v[i] == w[i] || (v[i] != v[i] && w[i] != w[i])), "float:sort", [&] { return "position " + std::to_string(i) + " has " + Str(v[i]) + " want " + Str(w[i]); });
      }
      vh::Eval();
      vh::Count("sorted");
    };
    one(static_cast<float*>(nullptr)); one(static_cast<double*>(nullptr)); one(static_cast<long double*>(nullptr));
  });
  vh::Section("others", 400, 10000, [](vh::Rng& r, std::uint64_t) {
    // Enums and pointers.
    const Scoped sa = r.Of({Scoped::kA, Scoped::kB, Scoped::kC}), sb = r.Of({Scoped::kA, Scoped::kB, Scoped::kC});
    vh::Check(Sgn(mt::CompareScalar(sa, sb)) == Want(static_cast<int>(sa), static_cast<int>(sb)), "scalar:enum", std::to_string(int(sa)) + " " + std::to_string(int(sb)));
    const Plain pa = r.Of({kP0, kP1, kP9}), pb = r.Of({kP0, kP1, kP9});
    vh::Check(Sgn(mt::CompareScalar(pa, pb)) == Want(static_cast<int>(pa), static_cast<int>(pb)), "scalar:enum", std::to_string(pa) + " " + std::to_string(pb));
    int arr[9] = {};
    const std::size_t i = r.Below(9), j = r.Below(9);
    vh::Check(Sgn(mt::CompareScalar(&arr[i], &arr[j])) == Want(i, j), "scalar:pointer", std::to_string(i) + " " + std::to_string(j));
    const int* ci = &arr[i];
    vh::Check(Sgn(mt::CompareScalar(ci, &arr[j])) == Want(i, j) && Sgn(mt::CompareScalar(&arr[j], ci)) == Want(j, i), "scalar:pointer:const", std::to_string(i) + " " + std::to_string(j));
    // Weak orders.
    const auto wo = r.Of({std::weak_ordering::less, std::weak_ordering::equivalent, std::weak_ordering::greater});
    vh::Check((mt::WeakToStrong(wo) < 0) == (wo < 0) && (mt::WeakToStrong(wo) > 0) == (wo > 0) && (mt::WeakToStrong(wo) == 0) == (wo == 0), "weak_to_strong", "");
    // CompareLess for user types.
    const Weak w1{r.Text("aAbB", r.Below(4))}, w2{r.Text("aAbB", r.Below(4))};
    const mt::CompareLess<Weak> lw;
    vh::Check(lw(w1, w2) == ((w1 <=> w2) < 0) && lw.Compare(w1, w2) == (w1 <=> w2), "less:weak", w1.s + " " + w2.s);
    const Part p1{Value<double>(r), static_cast<int>(r.Below(3))}, p2{r.Coin() ? p1.a : Value<double>(r), static_cast<int>(r.Below(3))};
    const mt::CompareLess<Part> lp;
    vh::Check(lp(p1, p2) == ((p1 <=> p2) < 0) && lp.Compare(p1, p2) == (p1 <=> p2), "less:partial", Str(p1.a) + " " + Str(p2.a));
    const std::string s1 = r.Text("ab\0\xff", r.Below(5)), s2 = r.Text("ab\0\xff", r.Below(5));
    const mt::CompareLess<std::string> ls;
    const std::string_view v2 = s2;
    vh::Check(ls(s1, s2) == (s1 < s2) && ls(s1, v2) == (s1 < s2) && ls(v2, s1) == (s2 < s1) && ls.Compare(s1, v2) == (s1 <=> s2) && ls.Compare(v2, s1) == (s2 <=> s1), "less:string", vh::Hex(s1) + " " + vh::Hex(s2));
    const mt::CompareLess<std::string_view> lv;
    vh::Check(lv(s1, v2) == (s1 < s2) && lv(v2, s1) == (s2 < s1) && lv.Compare(s1, v2) == (s1 <=> s2), "less:string_view", vh::Hex(s1) + " " + vh::Hex(s2));
    const std::string c2 = s2.substr(0, s2.find('\0'));
    vh::Check(ls(s1, c2.c_str()) == (s1 < c2) && ls(c2.c_str(), s1) == (c2 < s1), "less:cstring", vh::Hex(s1) + " " + vh::Hex(c2));
    // As the comparator of a set, mixed lookups included.
    std::set<std::string, mt::CompareLess<std::string>> m;
    std::set<std::string> ref;
    for (int k = 0; k < 8; ++k) { const std::string s = r.Text("abc", r.Below(3)); m.insert(s); ref.insert(s); }
    vh::Check(std::equal(m.begin(), m.end(), ref.begin(), ref.end()), "less:set", "");
    const std::string key = r.Text("abc", r.Below(3));
    vh::Check((m.find(std::string_view(key)) != m.end()) == ref.contains(key) && m.count(std::string_view(key)) == ref.count(key), "less:set:find", key);
    vh::Eval(12);
    vh::Distinct(vh::HashAll(s1 + "|" + s2 + w1.s + "|" + w2.s, i, j));
  });
  vh::Once("traits", [](vh::Rng&) {
    vh::Check(mt::IsCompareLess<mt::CompareLess<int>> && !mt::IsCompareLess<std::less<int>> && mt::IsStdLess<std::less<int>> && !mt::IsStdLess<mt::CompareLess<int>>, "traits", "");
    vh::Eval();
  });
}
