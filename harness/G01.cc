// VH-VARIANT: fatal CXX=g++ OPT=-O0
// VH-VARIANT: throws CXX=g++ OPT=-O0 GEN=throws:true
// VH-VARIANT: noexc CXX=clang++ OPT=-O0 -fno-exceptions
// VH-VARIANT: noexc_throws CXX=clang++ OPT=-O1 -fno-exceptions GEN=throws:true
// VH-VARIANT: ndebug CXX=clang++ OPT=-O2 -DNDEBUG
// VH-VARIANT: ndebug_throws CXX=clang++ OPT=-O2 -DNDEBUG GEN=throws:true
// VH-SRC: mbo/log/demangle.cc
// VH-RULE: six builds of the same requirement sites (exceptions on/off, throwing configured or not, NDEBUG or not, gcc and clang): random sites (plain, unbraced if/else arms, loops, conditions of low precedence and of many types, streamed arguments with side effects, and the requirements of the library's own containers and optional types) with met and unmet conditions; a monitor counts evaluations of conditions and arguments and effects after the check, in a child process when the check may abort
#include <memory>
#include <optional>
#include <stdexcept>
#include <exception>
#include <string>
#include <thread>

#include "mbo/config/require.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_vector.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "vh.h"

namespace {
#if __cpp_exceptions
constexpr bool kThrows = mbo::config::kRequireThrows;
#else
constexpr bool kThrows = false;
#endif
#ifdef NDEBUG
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif

// Shared with the child process: what was evaluated and what happened after the check.
struct Seen {
  int condition, argument, after, other;
};
Seen* seen = nullptr;

template <typename T>
T Cond(T v) { ++seen->condition; return v; }
const char* Arg() { ++seen->argument; return "<arg>"; }
void After() { ++seen->after; }
void Other() { ++seen->other; }

struct Explicit { bool v; explicit operator bool() const { return v; } };
struct Weird { bool v; friend bool operator!(const Weird& w) { return !w.v; } operator bool() const { return v; } };

struct Site {
  const char* name;
  void (*fn)(bool met, vh::Rng& r);
  int conditions;    // Evaluations of the condition expected.
  bool debug_only;   // The debug form.
  const char* message;
};

const Site kSites[] = {
    {"plain", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(m), "msg plain"); After(); }, 1, false, "msg plain"},
    {"streamed", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(m), "msg streamed ") << Arg() << 42; After(); }, 1, false, "msg streamed "},
    {"or", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(false) || Cond(m), "msg or"); After(); }, 2, false, "msg or"},
    {"and", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(true) && Cond(m), "msg and"); After(); }, 2, false, "msg and"},
    {"ternary", [](bool m, vh::Rng& r) { MBO_CONFIG_REQUIRE(r.Coin() ? Cond(m) : Cond(m), "msg ternary"); After(); }, 1, false, "msg ternary"},
    {"assign", [](bool m, vh::Rng&) { bool x = !m; MBO_CONFIG_REQUIRE(x = Cond(m), "msg assign"); if (x) { After(); } }, 1, false, "msg assign"},
    {"comma", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE((Other(), Cond(m)), "msg comma"); After(); }, 1, false, "msg comma"},
    {"compare", [](bool m, vh::Rng& r) { const int a = static_cast<int>(r.Below(5)); MBO_CONFIG_REQUIRE(Cond(a) == (m ? a : a + 1), "msg compare"); After(); }, 1, false, "msg compare"},
    {"int", [](bool m, vh::Rng& r) { MBO_CONFIG_REQUIRE(Cond(m ? r.Of({1, 2, 256, -1, 65536, 1 << 30}) : 0), "msg int"); After(); }, 1, false, "msg int"},
    {"long", [](bool m, vh::Rng& r) { MBO_CONFIG_REQUIRE(Cond(m ? r.Of({1L << 32U, 1L << 63U, 256L}) : 0L), "msg long"); After(); }, 1, false, "msg long"},
    {"double", [](bool m, vh::Rng& r) { MBO_CONFIG_REQUIRE(Cond(m ? r.Of({0.25, -0.001, 1e300}) : r.Of({0.0, -0.0})), "msg double"); After(); }, 1, false, "msg double"},
    {"pointer", [](bool m, vh::Rng&) { static int x; MBO_CONFIG_REQUIRE(Cond(m ? &x : nullptr), "msg pointer"); After(); }, 1, false, "msg pointer"},
    {"explicit_bool", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(Explicit{m}), "msg explicit"); After(); }, 1, false, "msg explicit"},
    {"optional", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(m ? std::optional<int>(0) : std::nullopt), "msg optional"); After(); }, 1, false, "msg optional"},
    {"weird", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(Weird{m}), "msg weird"); After(); }, 1, false, "msg weird"},
    {"if_then", [](bool m, vh::Rng& r) {
       const volatile bool yes = true;
       if (yes) MBO_CONFIG_REQUIRE(Cond(m), "msg if_then"); else Other();
       After(); (void)r; }, 1, false, "msg if_then"},
    {"if_else", [](bool m, vh::Rng&) {
       const volatile bool yes = false;
       if (yes) Other(); else MBO_CONFIG_REQUIRE(Cond(m), "msg if_else");
       After(); }, 1, false, "msg if_else"},
    {"if_skipped", [](bool m, vh::Rng&) {
       const volatile bool yes = false;
       if (yes) MBO_CONFIG_REQUIRE(Cond(m), "never"); else Other();
       if (seen->other == 1) { MBO_CONFIG_REQUIRE(Cond(m), "msg if_skipped"); After(); } }, 1, false, "msg if_skipped"},
    {"loop", [](bool m, vh::Rng& r) {
       const int n = 1 + static_cast<int>(r.Below(20)), bad = static_cast<int>(r.Below(static_cast<std::uint64_t>(n)));
       for (int i = 0; i < n; ++i) MBO_CONFIG_REQUIRE((Other(), m || i != bad), "msg loop");
       Cond(0); After(); }, -1, false, "msg loop"},
    {"nested_lambda", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE([&] { return Cond(m); }(), "msg lambda") << Arg(); After(); }, 1, false, "msg lambda"},
    {"concatenated", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(m), "msg " "joined " "literal"); After(); }, 1, false, "msg joined literal"},
    {"percent", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE(Cond(m), "msg 100% %s %n"); After(); }, 1, false, "msg 100% %s %n"},
#if __cpp_exceptions
    {"unwinding", [](bool m, vh::Rng&) {
       // While another exception is on its way, in a destructor that lets none out.
       struct Checks {
         bool met;
         std::exception_ptr* failed;
         ~Checks() { try { MBO_CONFIG_REQUIRE(Cond(met), "msg unwinding"); Other(); } catch (...) { *failed = std::current_exception(); } }
       };
       std::exception_ptr failed;
       try { const Checks checks{m, &failed}; throw 1; } catch (int) {}
       if (failed != nullptr) { std::rethrow_exception(failed); }
       if (seen->other == 1) { After(); } }, 1, false, "msg unwinding"},
    {"handler", [](bool m, vh::Rng&) {
       try { throw 1; } catch (int) { MBO_CONFIG_REQUIRE(Cond(m), "msg handler"); }
       After(); }, 1, false, "msg handler"},
    {"function_try", [](bool m, vh::Rng&) {
       struct Member { Member(bool v) try : x(v) { MBO_CONFIG_REQUIRE(Cond(x), "msg member"); } catch (const std::logic_error&) {} bool x; };
       const Member member(m);
       After(); }, 1, false, "msg member"},
#endif
    {"thread", [](bool m, vh::Rng&) {
#if __cpp_exceptions
       std::exception_ptr failed;
       std::thread t([&] { try { MBO_CONFIG_REQUIRE(Cond(m), "msg thread"); Other(); } catch (...) { failed = std::current_exception(); } });
       t.join();
       if (failed != nullptr) { std::rethrow_exception(failed); }
#else
       std::thread t([&] { MBO_CONFIG_REQUIRE(Cond(m), "msg thread"); Other(); });
       t.join();
#endif
       if (seen->other == 1) { After(); } }, 1, false, "msg thread"},
    {"switch", [](bool m, vh::Rng& r) {
       switch (r.Below(3)) {
         case 0: MBO_CONFIG_REQUIRE(Cond(m), "msg switch"); break;
         case 1: { MBO_CONFIG_REQUIRE(Cond(m), "msg switch"); } break;
         default: MBO_CONFIG_REQUIRE(Cond(m), "msg switch");
       }
       After(); }, 1, false, "msg switch"},
    {"debug", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE_DEBUG(Cond(m), "msg debug"); After(); }, 1, true, "msg debug"},
    {"debug_streamed", [](bool m, vh::Rng&) { MBO_CONFIG_REQUIRE_DEBUG(Cond(m), "msg debug2 ") << Arg(); After(); }, 1, true, "msg debug2 "},
    {"debug_if_else", [](bool m, vh::Rng&) {
       const volatile bool yes = true;
       if (yes) MBO_CONFIG_REQUIRE_DEBUG(Cond(m), "msg debug3"); else Other();
       After(); }, 1, true, "msg debug3"},
    // Requirements inside the library.
    {"optional_ref", [](bool m, vh::Rng& r) {
       int x = static_cast<int>(r.Below(100)) + 1;
       mbo::types::OptionalRef<int> o;
       if (m) { o.set_ref(x); }
       Cond(0);
       if (o.value() == x) { After(); } }, 1, false, "No value set"},
    {"optional_data_or_ref", [](bool m, vh::Rng& r) {
       const int x = static_cast<int>(r.Below(100)) + 1;
       mbo::types::OptionalDataOrRef<int> o;
       if (m) { o.emplace(x); }
       Cond(0);
       if (o.value() == x) { After(); } }, 1, false, "No value set"},
    {"vector_push", [](bool m, vh::Rng& r) {
       mbo::container::LimitedVector<int, 5> v;
       Cond(0);
       const int n = m ? static_cast<int>(r.Below(6)) : 6;
       for (int i = 0; i < n; ++i) { v.push_back(i); }
       if (v.size() == static_cast<std::size_t>(n)) { After(); } }, 1, false, ""},
    {"vector_emplace", [](bool m, vh::Rng&) {
       mbo::container::LimitedVector<std::string, 2> v;
       Cond(0);
       v.emplace_back(20, 'a');
       v.emplace_back(20, 'b');
       if (!m) { v.emplace_back(20, 'c'); }
       After(); }, 1, false, ""},
    {"vector_at", [](bool m, vh::Rng& r) {
       mbo::container::LimitedVector<int, 5> v;
       v.push_back(7);
       Cond(0);
       if (v.at(m ? 0 : 1 + r.Below(4)) == 7) { After(); } }, 1, false, ""},
    {"set_emplace", [](bool m, vh::Rng&) {
       mbo::container::LimitedSet<int, 3> s;
       Cond(0);
       for (int i = 0; i < (m ? 3 : 4); ++i) { s.emplace(i * 7 % 5); }
       if (s.size() == 3) { After(); } }, 1, false, ""},
    {"map_at", [](bool m, vh::Rng&) {
       mbo::container::LimitedMap<int, int, 3> s;
       s.emplace(1, 2);
       Cond(0);
       if (s.at(m ? 1 : 2) == 2) { After(); } }, 1, false, ""},
};

void Case(vh::Rng& r, const Site& s) {
  const bool met = r.Coin();
  const bool active = kDebug || !s.debug_only;
  *seen = Seen{};
  const std::uint64_t seed = r.Next();
  const std::string ctx = std::string(s.name) + (met ? " met" : " unmet") + (kThrows ? " throwing" : " fatal") + (kDebug ? "" : " NDEBUG");
  vh::Case(ctx);
  const std::string key = std::string(s.name) + (met ? ":met" : ":unmet");
  std::string what;
  bool stopped = false, threw = false;
  auto run = [&] {
    vh::Rng rr(seed);
#if __cpp_exceptions
    try { s.fn(met, rr); } catch (const std::runtime_error& e) { threw = true; what = e.what(); }
#else
    s.fn(met, rr);
#endif
  };
  // optional_ref and optional_data_or_ref check in noexcept functions: even a throwing requirement ends the program there.
  const bool noexcept_site = std::string_view(s.name).starts_with("optional_");
  if ((kThrows && !noexcept_site) || met || !active) {
    run();
    stopped = threw;
  } else {
    const vh::ChildResult c = vh::RunChild(run);
    stopped = !c.exited && c.sig == SIGABRT;
    if (!stopped) { vh::Fail(key + ":end", ctx + ": the process " + (c.exited ? "exited " + std::to_string(c.code) : "got signal " + std::to_string(c.sig)) + " " + c.err); }
    vh::Check(!c.Sanitizer(), key + ":sanitizer", ctx + ": " + c.err);
    what = c.err;
    vh::Count("children");
  }
  vh::Eval();
  vh::Distinct(vh::HashAll(std::string_view(s.name), met, seed));
  vh::Count(met ? "met" : "unmet");
  const int conditions = active ? (s.conditions < 0 ? (met ? 1 : 0) : s.conditions) : 0;
  vh::Eq(key + ":evaluations", seen->condition, conditions, ctx);
  const bool want_stop = !met && active;
  vh::Eq(key + ":stopped", stopped, want_stop, ctx);
  vh::Eq(key + ":threw", threw, want_stop && kThrows && !noexcept_site, ctx);
  vh::Eq(key + ":after", seen->after, want_stop ? 0 : 1, ctx);
  if (!want_stop) { vh::Eq(key + ":argument", seen->argument, 0, ctx); }
  if (want_stop) { vh::Check(what.find(s.message) != std::string::npos, key + ":message", ctx + ": the report " + vh::Json(what) + " lacks " + vh::Json(s.message)); }
  if (want_stop && !kThrows && std::string_view(s.name).ends_with("streamed")) {
    vh::Eq(key + ":argument", seen->argument, 1, ctx);
    vh::Check(what.find("<arg>") != std::string::npos, key + ":streamed", ctx + ": the report lacks the streamed text " + vh::Json(what));
  }
}
}  // namespace

void VhMain() {
  seen = static_cast<Seen*>(mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  vh::Count(kThrows ? "throwing_configuration" : "fatal_configuration");
  vh::Section("sites", 600, 6000, [](vh::Rng& r, std::uint64_t i) { Case(r, kSites[i % std::size(kSites)]); });
}
