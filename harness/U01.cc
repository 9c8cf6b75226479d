// VH-SRC: mbo/strings/indent.cc mbo/strings/strip.cc mbo/strings/parse.cc mbo/status/status_builder.cc
// VH-LIBS: -lgmock -lgtest -lpthread
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: clang
// VH-VARIANT: gcc CXX=g++ SAN=undefined
// VH-SHARDS: 4
// VH-RULE: random statuses (all codes, messages, payloads), status-or values, containers and texts against each matcher with random inner matchers of known truth (literals, Eq/Lt/AnyOf/AllOf/Not/_, string, container and pair matchers); every matcher is stored, its temporaries are gone and the stack overwritten before it is used, and it is used alone, negated, in AllOf/AnyOf/ElementsAre/Contains/Pointee/Conditional, and as the argument matcher of a mock; values must stay untouched; descriptions must carry those of the inner matchers; the assertion macros must stop, assign once and evaluate once. A case is (matcher, value).
#include <gmock/gmock.h>
#include <gtest/gtest-spi.h>
#include <gtest/gtest.h>

#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "mbo/strings/indent.h"
#include "mbo/testing/matchers.h"
#include "mbo/testing/status.h"
#include "vh.h"

namespace {
using ::testing::Matcher;
namespace mt = mbo::testing;

struct Churn { char fill[6000]; };
[[gnu::noinline]] void Scribble() { volatile Churn c; for (char volatile& x : c.fill) { x = 0x55; } }

// ---- Inner matchers of known truth ------------------------------------------------------------------------------------------
template <typename T>
struct Known {
  Matcher<T> m = ::testing::_;
  std::function<bool(const std::remove_cvref_t<T>&)> f;
  std::string name;
};
using KI = Known<int>;
KI Ints(vh::Rng& r, int depth = 2) {
  const int k = static_cast<int>(r.Range(-3, 3));
  const std::string n = std::to_string(k);
  switch (r.Below(depth > 0 ? 10 : 7)) {
    case 0: return {::testing::Eq(k), [k](int v) { return v == k; }, "Eq" + n};
    case 1: return {::testing::Lt(k), [k](int v) { return v < k; }, "Lt" + n};
    case 2: return {::testing::Ge(k), [k](int v) { return v >= k; }, "Ge" + n};
    case 3: return {::testing::Ne(k), [k](int v) { return v != k; }, "Ne" + n};
    case 4: return {::testing::_, [](int) { return true; }, "_"};
    case 5: return {k, [k](int v) { return v == k; }, "lit" + n};
    case 6: return {::testing::AnyOf(k, k + 2), [k](int v) { return v == k || v == k + 2; }, "AnyOf" + n};
    case 7: { KI a = Ints(r, depth - 1); return {::testing::Not(a.m), [f = a.f](int v) { return !f(v); }, "Not(" + a.name + ")"}; }
    case 8: { KI a = Ints(r, depth - 1), b = Ints(r, depth - 1); return {::testing::AllOf(a.m, b.m), [f = a.f, g = b.f](int v) { return f(v) && g(v); }, "AllOf(" + a.name + "," + b.name + ")"}; }
    default: { KI a = Ints(r, depth - 1), b = Ints(r, depth - 1); return {::testing::AnyOf(a.m, b.m), [f = a.f, g = b.f](int v) { return f(v) || g(v); }, "AnyOf(" + a.name + "," + b.name + ")"}; }
  }
}
std::string Word(vh::Rng& r) { return r.Text("ab", r.Below(4)); }
using KS = Known<const std::string&>;
KS Strs(vh::Rng& r, int depth = 2) {
  const std::string w = Word(r);
  switch (r.Below(depth > 0 ? 9 : 7)) {
    case 0: return {::testing::Eq(w), [w](const std::string& v) { return v == w; }, "Eq" + w};
    case 1: return {w, [w](const std::string& v) { return v == w; }, "lit" + w};
    case 2: return {::testing::HasSubstr(w), [w](const std::string& v) { return v.find(w) != std::string::npos; }, "HasSubstr" + w};
    case 3: return {::testing::StartsWith(w), [w](const std::string& v) { return v.starts_with(w); }, "StartsWith" + w};
    case 4: return {::testing::IsEmpty(), [](const std::string& v) { return v.empty(); }, "IsEmpty"};
    case 5: return {::testing::_, [](const std::string&) { return true; }, "_"};
    case 6: return {::testing::SizeIs(::testing::Gt(1U)), [](const std::string& v) { return v.size() > 1; }, "SizeIs"};
    case 7: { KS a = Strs(r, depth - 1); return {::testing::Not(a.m), [f = a.f](const std::string& v) { return !f(v); }, "Not(" + a.name + ")"}; }
    default: { KS a = Strs(r, depth - 1), b = Strs(r, depth - 1); return {::testing::AnyOf(a.m, b.m), [f = a.f, g = b.f](const std::string& v) { return f(v) || g(v); }, "AnyOf(" + a.name + "," + b.name + ")"}; }
  }
}
template <typename T> using KV = Known<const std::vector<T>&>;
template <typename T> T Any(vh::Rng& r);
template <> int Any(vh::Rng& r) { return static_cast<int>(r.Range(-3, 3)); }
template <> std::string Any(vh::Rng& r) { return Word(r); }
template <typename T>
KV<T> Vecs(vh::Rng& r) {
  std::vector<T> e;
  for (std::size_t k = r.Below(4); k > 0; --k) { e.push_back(Any<T>(r)); }
  const T one = Any<T>(r);
  const std::size_t n = e.size();
  switch (r.Below(6)) {
    case 0: return {::testing::ElementsAreArray(e), [e](const std::vector<T>& v) { return v == e; }, "ElementsAre" + std::to_string(n)};
    case 1: return {::testing::UnorderedElementsAreArray(e), [e](std::vector<T> v) { std::vector<T> x = e; std::sort(x.begin(), x.end()); std::sort(v.begin(), v.end()); return x == v; }, "UnorderedElementsAre"};
    case 2: return {::testing::SizeIs(n), [n](const std::vector<T>& v) { return v.size() == n; }, "SizeIs"};
    case 3: return {::testing::Contains(one), [one](const std::vector<T>& v) { return std::find(v.begin(), v.end(), one) != v.end(); }, "Contains"};
    case 4: return {::testing::Each(::testing::Ne(one)), [one](const std::vector<T>& v) { return std::find(v.begin(), v.end(), one) == v.end(); }, "Each"};
    default: { std::vector<T> s = e; std::sort(s.begin(), s.end()); return {::testing::WhenSorted(::testing::ElementsAreArray(s)), [s](std::vector<T> v) { std::sort(v.begin(), v.end()); return v == s; }, "WhenSorted"}; }
  }
}

// ---- The judge ------------------------------------------------------------------------------------------------------------------
template <typename T> std::string Describe(const Matcher<T>& m, bool neg) { std::ostringstream os; if (neg) { m.DescribeNegationTo(&os); } else { m.DescribeTo(&os); } return os.str(); }
template <typename V>
struct Mock { MOCK_METHOD(int, Call, (const V&), (const)); };

bool g_copies = true;  // A copy of a value is as good as the value.
// `make` gives the matcher; nothing it used may live on. `inner`: descriptions that must occur in those of the matcher.
template <typename V, typename Make>
void Judge(const std::string& key, const std::string& what, const Make& make, const V& value, bool want, const std::vector<std::pair<std::string, std::string>>& inner) {
  const Matcher<const V&> m = [&] { return Matcher<const V&>(make()); }();
  Scribble();
  vh::Case(key + " " + what);
  vh::Eval();
  vh::Distinct(vh::HashAll(key, what));
  vh::Count(key + (want ? ":match" : ":mismatch"));
  auto is = [&](const char* how, bool got, bool exp) { vh::Check(got == exp, key + ":" + how, [&] { return what + (exp ? " should match" : " should not match"); }); };
  is("plain", m.Matches(value), want);
  ::testing::StringMatchResultListener listener;
  is("explain", m.MatchAndExplain(value, &listener), want);
  ::testing::StringMatchResultListener again;
  m.MatchAndExplain(value, &again);
  vh::Check(listener.str() == again.str(), key + ":explains", [&] { return what + " explains differently: " + listener.str() + " / " + again.str(); });
  const Matcher<const V&> copy = m;  // NOLINT
  is("copy", copy.Matches(value), want);
  // Within standard matchers.
  is("Not", Matcher<const V&>(::testing::Not(m)).Matches(value), !want);
  is("Not", Matcher<const V&>(::testing::Not(make())).Matches(value), !want);
  is("AllOf", Matcher<const V&>(::testing::AllOf(make(), ::testing::_)).Matches(value), want);
  is("AnyOf", Matcher<const V&>(::testing::AnyOf(make(), ::testing::Not(::testing::_))).Matches(value), want);
  is("Pointee", Matcher<const V*>(::testing::Pointee(make())).Matches(&value), want);
  is("Conditional", Matcher<const V&>(::testing::Conditional(true, m, ::testing::Not(m))).Matches(value), want);
  if constexpr (std::is_copy_constructible_v<V>) if (g_copies) {
    const std::vector<V> two{value, value};
    const Matcher<const std::vector<V>&> ea = ::testing::ElementsAre(make(), make());
    Scribble();
    is("ElementsAre", ea.Matches(two), want);
    is("Each", Matcher<const std::vector<V>&>(::testing::Each(make())).Matches(two), want);
    is("Contains", Matcher<const std::vector<V>&>(::testing::Contains(make())).Matches(two), want);
  }
  {
    // A mock keeps the matcher for as long as the expectation lives.
    ::testing::NiceMock<Mock<V>> mock;
    ON_CALL(mock, Call(::testing::_)).WillByDefault(::testing::Return(0));
    ON_CALL(mock, Call(make())).WillByDefault(::testing::Return(1));
    Scribble();
    is("mock", mock.Call(value) == 1, want);
  }
  const std::string pos = Describe(m, false), neg = Describe(m, true);
  vh::Check(!pos.empty() && pos != neg, key + ":describe", [&] { return what + " '" + pos + "' '" + neg + "'"; });
  for (const auto& [p, n] : inner) {
    vh::Check(pos.find(p) != std::string::npos, key + ":describe", [&] { return what + " '" + pos + "' does not say '" + p + "'"; });
    vh::Check(neg.find(n) != std::string::npos, key + ":describe", [&] { return what + " negated '" + neg + "' does not say '" + n + "'"; });
  }
  if (!want) { vh::Count("explanations", listener.str().empty() ? 0 : 1); }
}
template <typename T> std::pair<std::string, std::string> Said(const Matcher<T>& m) { return {Describe(m, false), Describe(m, true)}; }
// StatusIs and payload matchers negate as a whole.
template <typename T> std::pair<std::string, std::string> SaidPos(const Matcher<T>& m) { return {Describe(m, false), Describe(m, false)}; }

// ---- Statuses ---------------------------------------------------------------------------------------------------------------------
struct Facts { absl::StatusCode code; std::string msg; std::map<std::string, std::string> payloads; };
const char* const kUrls[] = {"a", "b", "type/x", ""};
Facts RandFacts(vh::Rng& r) {
  Facts f;
  f.code = static_cast<absl::StatusCode>(r.Chance(1, 4) ? 0 : r.Below(17));
  if (f.code == absl::StatusCode::kOk) { return f; }
  f.msg = Word(r);
  for (std::size_t k = r.Below(4); k > 0; --k) { f.payloads[r.Pick(kUrls)] = Word(r); }
  return f;
}
absl::Status Make(const Facts& f) { absl::Status s(f.code, f.msg); for (const auto& [u, p] : f.payloads) { s.SetPayload(u, absl::Cord(p)); } return s; }
std::string Show(const Facts& f) { std::string s = std::to_string(static_cast<int>(f.code)) + " '" + f.msg + "'"; for (const auto& [u, p] : f.payloads) { s += " " + u + "=" + p; } return s; }

template <typename V>
void StatusMatchers(vh::Rng& r, const Facts& f, const V& v, const std::string& type) {
  const bool ok = f.code == absl::StatusCode::kOk;
  const std::string what = type + " " + Show(f);
  Judge("IsOk", what, [] { return mt::IsOk(); }, v, ok, {{"is OK", "is not OK"}});
  // StatusIs.
  const auto c1 = static_cast<absl::StatusCode>(r.Below(17));
  const absl::StatusCode c2 = r.Coin() ? f.code : static_cast<absl::StatusCode>(r.Below(17));
  const KS msg = Strs(r);
  auto sis = [&](const std::string& name, const auto& make_code, bool code_match) {
    Judge("StatusIs", what + " " + name, [&] { return mt::StatusIs(make_code()); }, v, code_match, {});
    Judge("StatusIs2", what + " " + name + " " + msg.name, [&] { return mt::StatusIs(make_code(), msg.m); }, v, code_match && (ok || msg.f(f.msg)), {SaidPos(msg.m)});
  };
  sis("code" + std::to_string(static_cast<int>(c2)), [&] { return c2; }, f.code == c2);
  switch (r.Below(4)) {
    case 0: sis("AnyOf", [&] { return ::testing::AnyOf(c1, c2); }, f.code == c1 || f.code == c2); break;
    case 1: sis("Not", [&] { return ::testing::Not(c1); }, f.code != c1); break;
    case 2: sis("_", [&] { return ::testing::_; }, true); break;
    default: sis("int", [&] { return static_cast<int>(c2); }, f.code == c2); break;
  }
  const std::string w = Word(r);
  Judge("StatusIs2", what + " literal " + w, [&] { return mt::StatusIs(c2, std::string(w)); }, v, f.code == c2 && (ok || f.msg == w), {});
  Judge("StatusIs2", what + " HasSubstr " + w, [&] { return mt::StatusIs(c2, ::testing::HasSubstr(w)); }, v, f.code == c2 && (ok || f.msg.find(w) != std::string::npos), {});
  // Payloads.
  Judge("StatusHasPayload", what, [] { return mt::StatusHasPayload(); }, v, !ok && !f.payloads.empty(), {});
  const std::string url = r.Pick(kUrls);
  const auto it = f.payloads.find(url);
  Judge("StatusHasPayload1", what + " at " + url, [&] { return mt::StatusHasPayload(std::string(url)); }, v, it != f.payloads.end(), {{"'" + url + "'", "'" + url + "'"}});
  const KS pay = Strs(r);
  Judge("StatusHasPayload2", what + " at " + url + " " + pay.name, [&] { return mt::StatusHasPayload(std::string(url), pay.m); }, v, it != f.payloads.end() && pay.f(it->second), {Said(pay.m)});
  std::map<std::string, std::string> all = f.payloads;
  if (r.Chance(1, 3)) { all[r.Pick(kUrls)] = Word(r); }
  std::vector<std::pair<const std::string, std::string>> pairs(all.begin(), all.end());
  Judge("StatusPayloads", what + " all", [&] { return mt::StatusPayloads(::testing::UnorderedElementsAreArray(pairs)); }, v, all == f.payloads, {});
  const std::size_t n = r.Below(4);
  Judge("StatusPayloads", what + " size " + std::to_string(n), [&] { return mt::StatusPayloads(::testing::SizeIs(n)); }, v, f.payloads.size() == n, {});
  Judge("StatusPayloads", what + " key " + url, [&] { return mt::StatusPayloads(::testing::Contains(::testing::Key(url))); }, v, it != f.payloads.end(), {});
}
// Counts copies, to see that values are only looked at.
struct Looked {
  int v = 0;
  static inline int copies = 0;
  Looked() = default;
  explicit Looked(int x) : v(x) {}
  Looked(const Looked& o) : v(o.v) { ++copies; }
  Looked(Looked&& o) noexcept : v(o.v) { o.v = -99; }
  Looked& operator=(const Looked& o) { v = o.v; ++copies; return *this; }
  Looked& operator=(Looked&& o) noexcept { v = o.v; o.v = -99; return *this; }
  ~Looked() = default;
  bool operator==(const Looked&) const = default;
};
void Statuses(vh::Rng& r, std::uint64_t) {
  const Facts f = RandFacts(r);
  const bool ok = f.code == absl::StatusCode::kOk;
  switch (r.Below(4)) {
    case 0: { const absl::Status s = Make(f), keep = s; StatusMatchers(r, f, s, "Status"); vh::Check(s == keep, "untouched", Show(f)); break; }
    case 1: {
      const int x = Any<int>(r);
      const absl::StatusOr<int> s = ok ? absl::StatusOr<int>(x) : absl::StatusOr<int>(Make(f)), keep = s;
      StatusMatchers(r, f, s, "StatusOr<int>");
      const KI m = Ints(r);
      Judge("IsOkAndHolds", Show(f) + " int " + std::to_string(x) + " " + m.name, [&] { return mt::IsOkAndHolds(m.m); }, s, ok && m.f(x), {Said(m.m)});
      const int y = Any<int>(r);
      Judge("IsOkAndHolds", Show(f) + " int " + std::to_string(x) + " lit" + std::to_string(y), [&] { return mt::IsOkAndHolds(int(y)); }, s, ok && x == y, {});
      Judge("IsOkAndHolds", Show(f) + " int " + std::to_string(x) + " composite" + std::to_string(y), [&] { return mt::IsOkAndHolds(::testing::AnyOf(::testing::Gt(y), ::testing::Lt(y - 1))); }, s, ok && (x > y || x < y - 1), {});
      vh::Check(s == keep, "untouched", Show(f));
      break;
    }
    case 2: {
      const std::string x = Word(r);
      const absl::StatusOr<std::string> s = ok ? absl::StatusOr<std::string>(x) : absl::StatusOr<std::string>(Make(f)), keep = s;
      StatusMatchers(r, f, s, "StatusOr<string>");
      const KS m = Strs(r);
      Judge("IsOkAndHolds", Show(f) + " string " + x + " " + m.name, [&] { return mt::IsOkAndHolds(m.m); }, s, ok && m.f(x), {Said(m.m)});
      Judge("IsOkAndHolds", Show(f) + " string " + x + " lit", [&] { return mt::IsOkAndHolds("ab"); }, s, ok && x == "ab", {});
      vh::Check(s == keep, "untouched", Show(f));
      break;
    }
    default: {
      // Move-only and copy-counting values.
      const int x = Any<int>(r);
      absl::StatusOr<std::unique_ptr<int>> s = ok ? absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(x)) : absl::StatusOr<std::unique_ptr<int>>(Make(f));
      const int* const p = ok ? s->get() : nullptr;
      StatusMatchers(r, f, s, "StatusOr<unique_ptr>");
      const KI m = Ints(r);
      Judge("IsOkAndHolds", Show(f) + " ptr " + std::to_string(x) + " " + m.name, [&] { return mt::IsOkAndHolds(::testing::Pointee(m.m)); }, s, ok && m.f(x), {});
      vh::Check(!ok || (s->get() == p && *p == x), "untouched", "unique_ptr");
      const absl::StatusOr<Looked> l = ok ? absl::StatusOr<Looked>(Looked(x)) : absl::StatusOr<Looked>(Make(f));
      const Matcher<const absl::StatusOr<Looked>&> lm = mt::IsOkAndHolds(::testing::Field(&Looked::v, m.m));
      const Matcher<const absl::StatusOr<Looked>&> lo = mt::IsOk();
      Looked::copies = 0;
      ::testing::StringMatchResultListener out;
      vh::Check(lm.MatchAndExplain(l, &out) == (ok && m.f(x)) && lo.Matches(l) == ok, "IsOkAndHolds:field", Show(f));
      vh::Check(Looked::copies == 0 && (!ok || l->v == x), "untouched", [&] { return "copies " + std::to_string(Looked::copies); });
      break;
    }
  }
}

// ---- Containers ------------------------------------------------------------------------------------------------------------------
void Elements(vh::Rng& r, std::uint64_t) {
  std::vector<int> e;
  for (std::size_t k = r.Below(5); k > 0; --k) { e.push_back(Any<int>(r)); }
  const int x = Any<int>(r);
  std::string what = std::to_string(x) + " of";
  for (const int v : e) { what += " " + std::to_string(v); }
  const auto pos = std::find(e.begin(), e.end(), x);
  const bool in = pos != e.end();
  std::pair<std::string, std::string> said{"element of {", "not element of {"};
  Judge("IsElementOf", what, [&] { return mt::IsElementOf(std::vector<int>(e)); }, x, in, {said});
  Judge("IsElementOf", what + " list", [&] { return mt::IsElementOf(std::list<int>(e.begin(), e.end())); }, x, in, {said});
  Judge("IsElementOf", what + " set", [&] { return mt::IsElementOf(std::set<int>(e.begin(), e.end())); }, x, in, {said});
  Judge("IsElementOf", what + " init", [&] { return mt::IsElementOf({1, 2, x + 1}); }, x, x == 1 || x == 2, {said});
  Judge("IsElementOf", what + " long", [&] { return mt::IsElementOf(std::vector<int>(e)); }, static_cast<long>(x), in, {said});
  {
    // The explanation tells the first equal element.
    const Matcher<const int&> m = mt::IsElementOf(std::vector<int>(e));
    ::testing::StringMatchResultListener l;
    m.MatchAndExplain(x, &l);
    vh::Check(in == (l.str().find("#" + std::to_string(pos - e.begin())) != std::string::npos), "IsElementOf:index", [&] { return what + ": " + l.str(); });
  }
  const std::string w = Word(r);
  std::vector<std::string> sv;
  for (std::size_t k = r.Below(5); k > 0; --k) { sv.push_back(Word(r)); }
  const bool sin = std::find(sv.begin(), sv.end(), w) != sv.end();
  Judge("IsElementOf", w + " strings", [&] { return mt::IsElementOf(std::vector<std::string>(sv)); }, w, sin, {said});
  Judge("IsElementOf", w + " views", [&] { return mt::IsElementOf(std::vector<std::string>(sv)); }, std::string_view(w), sin, {said});
  const char* const cs = w.c_str();
  vh::Check(Matcher<const char*>(mt::IsElementOf(sv)).Matches(cs) == sin, "IsElementOf:chars", w);
  // Pairs compare by parts.
  std::vector<std::pair<std::string, std::string>> sp;
  for (const std::string& s : sv) { sp.emplace_back(s, s); }
  const std::pair<const char*, std::string_view> cp{cs, w};
  Judge("IsElementOf", w + " pairs", [&] { return mt::IsElementOf(std::vector<std::pair<std::string, std::string>>(sp)); }, cp, sin, {said});
  {
    // Both parts count.
    std::vector<std::pair<std::string, std::string>> half;
    bool both = false;
    for (const std::string& t : sv) {
      half.emplace_back(r.Coin() ? w : t, r.Coin() ? w : t);
      both = both || (half.back().first == w && half.back().second == w);
    }
    Judge("IsElementOf", w + " half pairs", [&] { return mt::IsElementOf(std::vector<std::pair<std::string, std::string>>(half)); }, cp, both, {said});
    std::map<std::string, int> entries;
    for (const std::string& t : sv) { entries[t] = Any<int>(r); }
    const std::pair<std::string, int> entry{w, x};
    const auto it = entries.find(w);
    Judge("IsElementOf", w + " entries", [&] { return mt::IsElementOf(std::map<std::string, int>(entries)); }, entry, it != entries.end() && it->second == x, {said});
  }
  std::map<int, std::string> m;
  for (std::size_t k = 0; k < sv.size(); ++k) { m[Any<int>(r)] = sv[k]; }
  bool vin = false;
  for (const auto& [k, v] : m) { vin = vin || v == w; }
  Judge("IsKeyOf", what, [&] { return mt::IsKeyOf(std::map<int, std::string>(m)); }, x, m.contains(x), {{"key of {", "not a key of {"}});
  Judge("IsValueOf", w, [&] { return mt::IsValueOf(std::map<int, std::string>(m)); }, w, vin, {{"value of {", "not a value of {"}});
  {
    // More elements than anything prints.
    const int n = static_cast<int>(r.Of({10, 17, 33, 100, 300})), y = static_cast<int>(r.Below(static_cast<std::uint64_t>(n) + n / 4));
    std::vector<int> big;
    std::map<int, int> bigm;
    for (int k = 0; k < n; ++k) { big.push_back(k * 3); bigm[k * 3] = k * 5 + 1; }
    const Matcher<const int&> bm = mt::IsElementOf(std::vector<int>(big)), km = mt::IsKeyOf(bigm), valm = mt::IsValueOf(bigm);
    ::testing::StringMatchResultListener l;
    const bool got = bm.MatchAndExplain(y * 3, &l);
    vh::Check(got == (y < n), "IsElementOf:many", [&] { return std::to_string(y) + " of " + std::to_string(n); });
    vh::Check(y >= n || l.str().find("#" + std::to_string(y) + " ") != std::string::npos, "IsElementOf:index", [&] { return std::to_string(y) + " of " + std::to_string(n) + ": " + l.str(); });
    vh::Check(!bm.Matches(y * 3 + 1) && km.Matches(y * 3) == (y < n) && !km.Matches(y * 3 + 2), "IsKeyOf:many", [&] { return std::to_string(y) + " of " + std::to_string(n); });
    vh::Check(valm.Matches(y * 5 + 1) == (y < n) && !valm.Matches(y * 5), "IsValueOf:many", [&] { return std::to_string(y) + " of " + std::to_string(n); });
    vh::Eval(6);
    vh::Count("many_elements");
  }
  const std::multimap<std::string, int> mm{{w, x}, {w + "a", x + 1}};
  const std::string q = Word(r);
  Judge("IsKeyOf", w + " multimap " + q, [&] { return mt::IsKeyOf(std::multimap<std::string, int>(mm)); }, q, q == w || q == w + "a", {});
}
void Capacity(vh::Rng& r, std::uint64_t) {
  g_copies = false;  // The capacity is not copied.
  std::vector<int> v;
  v.reserve(r.Below(6));
  for (std::size_t k = r.Below(5); k > 0; --k) { v.push_back(1); }
  const std::size_t c = v.capacity(), n = r.Below(9);
  const std::string what = std::to_string(c) + "/" + std::to_string(v.size()) + " is " + std::to_string(n);
  Judge("CapacityIs", what, [&] { return mt::CapacityIs(n); }, v, c == n, {{std::to_string(n), std::to_string(n)}});
  Judge("CapacityIs", what + " Le", [&] { return mt::CapacityIs(::testing::Le(n)); }, v, c <= n, {Said(Matcher<std::size_t>(::testing::Le(n)))});
  Judge("CapacityIs", what + " Not", [&] { return mt::CapacityIs(::testing::Not(::testing::AnyOf(n, n + 1))); }, v, c != n && c != n + 1, {Said(Matcher<std::size_t>(::testing::Not(::testing::AnyOf(n, n + 1))))});
  vh::Check(v.capacity() == c, "untouched", what);
  {
    // Capacities of any size.
    std::vector<char> wide;
    wide.reserve(r.Of({100UL, 255UL, 256UL, 65535UL, 65536UL, 65537UL, 70000UL}) + r.Below(3));
    const std::size_t wc = wide.capacity();
    for (const std::size_t other : {wc, wc % 65536, wc % 256, wc + 1, wc + 65536}) {
      vh::Check(Matcher<const std::vector<char>&>(mt::CapacityIs(other)).Matches(wide) == (other == wc), "CapacityIs:wide", [&] { return std::to_string(wc) + " is " + std::to_string(other); });
    }
    vh::Eval(5);
  }
  std::string s;
  s.reserve(r.Below(60));
  const std::size_t sc = s.capacity(), sn = r.Coin() ? sc : r.Below(60);
  Judge("CapacityIs", "string " + std::to_string(sc) + " " + std::to_string(sn), [&] { return mt::CapacityIs(sn); }, s, sc == sn, {});
  vh::Check(s.capacity() == sc, "untouched", what);
  g_copies = true;
}

std::string ToStr(int v) { return std::string(static_cast<std::size_t>(v + 3) % 3, 'a') + (v % 2 == 0 ? "b" : ""); }
// As `Judge`, for a matcher which must be used while what it was made from lives: `with` passes it on within one expression.
template <typename V, typename With>
void JudgeNow(const std::string& key, const std::string& what, const With& with, const V& value, bool want) {
  vh::Case(key + " " + what);
  vh::Eval();
  vh::Distinct(vh::HashAll(key, what));
  vh::Count(key + (want ? ":match" : ":mismatch"));
  auto is = [&](const char* how, bool got, bool exp) { vh::Check(got == exp, key + ":" + how, [&] { return what + (exp ? " should match" : " should not match"); }); };
  with([&](const auto& made) {
    Scribble();
    const Matcher<const V&> m = made;
    is("plain", m.Matches(value), want);
    ::testing::StringMatchResultListener listener, again;
    is("explain", m.MatchAndExplain(value, &listener), want);
    m.MatchAndExplain(value, &again);
    vh::Check(listener.str() == again.str(), key + ":explains", [&] { return what + " explains differently: " + listener.str() + " / " + again.str(); });
    const Matcher<const V&> copy = m;  // NOLINT
    is("copy", copy.Matches(value), want);
    is("Not", Matcher<const V&>(::testing::Not(made)).Matches(value), !want);
    is("AllOf", Matcher<const V&>(::testing::AllOf(made, ::testing::_)).Matches(value), want);
    is("AnyOf", Matcher<const V&>(::testing::AnyOf(made, ::testing::Not(::testing::_))).Matches(value), want);
    is("Pointee", Matcher<const V*>(::testing::Pointee(made)).Matches(&value), want);
    is("Value", ::testing::Value(value, made), want);
    const std::vector<V> two{value, value};
    is("ElementsAre", Matcher<const std::vector<V>&>(::testing::ElementsAre(made, m)).Matches(two), want);
    is("Each", Matcher<const std::vector<V>&>(::testing::Each(made)).Matches(two), want);
    const std::string pos = Describe(m, false), neg = Describe(m, true);
    vh::Check(!pos.empty() && pos != neg, key + ":describe", [&] { return what + " '" + pos + "' '" + neg + "'"; });
  });
}

void Transformed(vh::Rng& r, std::uint64_t) {
  std::vector<int> v;
  for (std::size_t k = r.Below(5); k > 0; --k) { v.push_back(Any<int>(r)); }
  std::string what;
  for (const int x : v) { what += " " + std::to_string(x); }
  const std::vector<int> keep = v;
  const int add = Any<int>(r);
  const KV<int> mi = Vecs<int>(r);
  std::vector<int> ti;
  for (const int x : v) { ti.push_back(x + add); }
  // A transformer with state, given as a temporary.
  JudgeNow("WhenTransformedBy", what + " +" + std::to_string(add) + " " + mi.name, [&](const auto& use) { use(mt::WhenTransformedBy([add, pad = std::vector<int>(3, add)](int x) { return x + pad[1]; }, Matcher<const std::vector<int>&>(mi.m))); }, v, mi.f(ti));
  const KV<std::string> ms = Vecs<std::string>(r);
  std::vector<std::string> ts;
  for (const int x : v) { ts.push_back(ToStr(x)); }
  JudgeNow("WhenTransformedBy", what + " string " + ms.name, [&](const auto& use) { use(mt::WhenTransformedBy(ToStr, ms.m)); }, v, ms.f(ts));
  JudgeNow("WhenTransformedBy", what + " string& " + ms.name, [&](const auto& use) { use(mt::WhenTransformedBy(&ToStr, ms.m)); }, v, ms.f(ts));
  JudgeNow("WhenTransformedBy", what + " function " + ms.name, [&](const auto& use) { use(mt::WhenTransformedBy(std::function<std::string(int)>(ToStr), ms.m)); }, v, ms.f(ts));
  vh::Check(v == keep, "untouched", what);
  // Composite matchers given as temporaries.
  JudgeNow("WhenTransformedBy", what + " ElementsAre", [&](const auto& use) { use(mt::WhenTransformedBy([](int x) { return x * 2; }, ::testing::ElementsAre(add * 2, ::testing::Gt(0)))); }, v, v.size() == 2 && v[0] == add && v[1] > 0);
  JudgeNow("WhenTransformedBy", what + " AllOf", [&](const auto& use) { use(mt::WhenTransformedBy([](int x) { return x * 2; }, ::testing::AllOf(::testing::SizeIs(2), ::testing::Contains(add * 2)))); }, v, v.size() == 2 && (v[0] == add || v[1] == add));
  // Sets, lists and maps in iteration order.
  const std::set<int> s(v.begin(), v.end());
  std::vector<int> tset;
  for (const int x : s) { tset.push_back(x + add); }
  JudgeNow("WhenTransformedBy", what + " set " + mi.name, [&](const auto& use) { use(mt::WhenTransformedBy([add](const int& x) { return x + add; }, mi.m)); }, s, mi.f(tset));
  const std::list<int> l(v.begin(), v.end());
  JudgeNow("WhenTransformedBy", what + " list " + mi.name, [&](const auto& use) { use(mt::WhenTransformedBy([add](int x) { return x + add; }, mi.m)); }, l, mi.f(ti));
  std::map<std::string, int> m;
  for (const int x : v) { m[ToStr(x)] = x; }
  std::vector<std::string> keys;
  for (const auto& [k, x] : m) { keys.push_back(k); }
  JudgeNow("WhenTransformedBy", what + " keys " + ms.name, [&](const auto& use) { use(mt::WhenTransformedBy([](const std::pair<const std::string, int>& p) { return p.first; }, ms.m)); }, m, ms.f(keys));
  // Every element is transformed exactly once per match.
  int calls = 0;
  vh::Check(Matcher<const std::vector<int>&>(mt::WhenTransformedBy([&calls](int x) { ++calls; return x; }, ::testing::_)).Matches(v) && calls == static_cast<int>(v.size()), "WhenTransformedBy:calls", what);
}

// A matcher that is kept must not need what it was made from, as a mock or a matcher in a variable do.
void KeptTransformed() {
  const vh::ChildResult c = vh::RunChild([] {
    const std::vector<int> v{1, 2, 3};
    const Matcher<const std::vector<int>&> m = [&] { return Matcher<const std::vector<int>&>(mt::WhenTransformedBy([pad = std::vector<int>(3, 40)](int x) { return x + pad[1]; }, ::testing::ElementsAre(41, 42, 43))); }();
    Scribble();
    _exit(m.Matches(v) ? 0 : 3);
  }, 30);
  vh::Eval();
  vh::Check(c.exited && c.code == 0, "WhenTransformedBy:kept", "a kept WhenTransformedBy matcher: " + c.err.substr(0, 400));
}

void Texts(vh::Rng& r, std::uint64_t) {
  auto line = [&] { return r.Text(" ab", r.Below(4)); };
  std::string t;
  for (std::size_t k = r.Below(5); k > 0; --k) { t += line() + (k > 1 || r.Coin() ? "\n" : ""); }
  std::string u = t;
  switch (r.Below(5)) {
    case 0: break;
    case 1: u += r.Of<std::string>({"\n", " ", "a"}); break;
    case 2: if (!u.empty()) { u.erase(r.Below(u.size()), 1); } break;
    case 3: if (!u.empty()) { u[r.Below(u.size())] = r.Of<char>({'a', '\n', ' ', '\0'}); } break;
    default: u = line() + "\n" + line(); break;
  }
  const std::string what = vh::Json(t) + " vs " + vh::Json(u);
  Judge("EqualsText", what, [&] { return mt::EqualsText(std::string(t)); }, u, t == u, {});
  Judge("EqualsText", what + " view", [&] { return mt::EqualsText(std::string(t)); }, std::string_view(u), t == u, {});
}
void Drop(vh::Rng& r, std::uint64_t) {
  const std::string ind(r.Below(4), ' ');
  std::string t = "\n";
  for (std::size_t k = 1 + r.Below(4); k > 0; --k) { t += ind + r.Text(" ab", r.Below(4)) + "\n"; }
  t += std::string(r.Below(3), ' ');
  const std::string want = mbo::strings::DropIndent(t);
  const std::string u = r.Coin() ? want : r.Coin() ? t : want + r.Of<std::string>({"\n", " ", "x"});
  const std::string what = vh::Json(t) + " vs " + vh::Json(u);
  Judge("WithDropIndent", what, [&] { return mt::WithDropIndent(mt::EqualsText(std::string(t))); }, u, want == u, {});
}
void Nullopts(vh::Rng& r, std::uint64_t) {
  const std::optional<int> o = r.Coin() ? std::optional<int>(Any<int>(r)) : std::nullopt;
  const std::optional<std::string> s = r.Coin() ? std::optional<std::string>(Word(r)) : std::nullopt;
  Judge("IsNullopt", o ? "int " + std::to_string(*o) : "none", [] { return mt::IsNullopt(); }, o, !o, {});
  Judge("IsNullopt", s ? "string " + *s : "none", [] { return mt::IsNullopt(); }, s, !s, {});
}

// ---- The assertion macros ----------------------------------------------------------------------------------------------------------
struct Trace { int evaluated = 0; bool after = false; };
template <typename T, typename Fn>
const ::testing::TestPartResultArray& Failures(Fn&& fn) {
  static std::unique_ptr<::testing::TestPartResultArray> keep;
  keep = std::make_unique<::testing::TestPartResultArray>();
  ::testing::TestPartResultArray& out = *keep;
  ::testing::ScopedFakeTestPartResultReporter rep(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &out);
  fn();
  return out;
}
void Macros(vh::Rng& r, std::uint64_t) {
  const Facts f = RandFacts(r);
  const bool ok = f.code == absl::StatusCode::kOk;
  const absl::Status s = Make(f);
  const int x = Any<int>(r);
  Trace t;
  vh::Eval();
  vh::Distinct(vh::HashAll(Show(f), x));
  auto status = [&] { ++t.evaluated; return s; };
  auto number = [&]() -> absl::StatusOr<int> { ++t.evaluated; if (!ok) { return s; } return x; };
  auto owner = [&]() -> absl::StatusOr<std::unique_ptr<int>> { ++t.evaluated; if (!ok) { return s; } return std::make_unique<int>(x); };
  auto pair = [&]() -> absl::StatusOr<std::pair<int, std::string>> { ++t.evaluated; if (!ok) { return s; } return std::make_pair(x, std::string("p")); };
  auto judge = [&](const char* key, const ::testing::TestPartResultArray& a, bool fatal) {
    vh::Check(t.evaluated == 1, std::string(key) + ":once", [&] { return Show(f) + " evaluated " + std::to_string(t.evaluated); });
    vh::Check((a.size() == 0) == ok, std::string(key) + ":fails", [&] { return Show(f) + " failures " + std::to_string(a.size()); });
    vh::Check(t.after == (ok || !fatal), std::string(key) + ":stops", [&] { return Show(f); });
    if (a.size() != 0) {
      vh::Check(a.size() == 1 && (fatal ? a.GetTestPartResult(0).fatally_failed() : a.GetTestPartResult(0).nonfatally_failed()), std::string(key) + ":kind", Show(f));
      vh::Check(f.msg.empty() || std::string(a.GetTestPartResult(0).message()).find(f.msg) != std::string::npos, std::string(key) + ":message", Show(f));
    }
    t = {};
  };
  judge("EXPECT_OK", Failures<int>([&] { MBO_EXPECT_OK(status()); t.after = true; }), false);
  judge("ASSERT_OK", Failures<int>([&] { MBO_ASSERT_OK(status()); t.after = true; }), true);
  judge("EXPECT_OK", Failures<int>([&] { MBO_EXPECT_OK(number()); t.after = true; }), false);
  int got = 1000;
  judge("ASSIGN", Failures<int>([&] { MBO_ASSERT_OK_AND_ASSIGN(got, number()); t.after = true; }), true);
  vh::Check(got == (ok ? x : 1000), "ASSIGN:value", [&] { return Show(f) + " got " + std::to_string(got); });
  std::unique_ptr<int> p;
  judge("ASSIGN", Failures<int>([&] { MBO_ASSERT_OK_AND_ASSIGN(p, owner()); t.after = true; }), true);
  vh::Check(ok ? p && *p == x : !p, "ASSIGN:value", Show(f));
  judge("ASSIGN", Failures<int>([&] { MBO_ASSERT_OK_AND_ASSIGN(const int v, number()); t.after = true; got = v; }), true);
  std::string second;
  judge("MOVE_TO", Failures<int>([&] { MBO_ASSERT_OK_AND_MOVE_TO(pair(), const auto [a, b]); t.after = true; got = a; second = b; }), true);
  vh::Check(!ok || (got == x && second == "p"), "MOVE_TO:value", Show(f));
}
}  // namespace

void VhMain() {
  static int argc = 1;
  static char name[] = "U01";
  static char* argv[] = {name, nullptr};
  ::testing::InitGoogleMock(&argc, argv);
  vh::Section("statuses", 2500, 100000, Statuses);
  vh::Section("elements", 2500, 60000, Elements);
  vh::Section("capacity", 1000, 20000, Capacity);
  vh::Section("transformed", 2500, 60000, Transformed);
  vh::Once("kept_transformed", [](vh::Rng&) { KeptTransformed(); });
  vh::Section("texts", 3000, 100000, Texts);
  vh::Section("drop", 3000, 100000, Drop);
  vh::Section("nullopts", 100, 1000, Nullopts);
  vh::Section("macros", 1500, 40000, Macros);
}
