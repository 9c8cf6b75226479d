// VH-SRC: mbo/log/log_timing.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: timing scopes with start times far enough in the past or future that the outcome is certain, every severity below fatal, durations given by argument or by flag (zero, negative and infinite included), messages streamed from many types, scopes moved any number of times, moved-from ones moved again, nested, left by exceptions and created on several threads; a log sink records every message; function names of every shape, mutated and arbitrary ones are stripped
#include <functional>
#include <mutex>
#include <source_location>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

#include "absl/base/log_severity.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/log/globals.h"
#include "absl/log/log.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "absl/time/time.h"
#include "mbo/log/log_timing.h"
#include "vh.h"

ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration);
ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);

namespace mbo::log::log_internal {
struct StripFunctionNameTest {  // The friend which the header names.
  static std::string Strip(std::string_view s) { return LogTimingImpl::StripFunctionName(s); }
};
}  // namespace mbo::log::log_internal

namespace {
using mbo::log::LogTiming;
using mbo::log::log_internal::LogTimingImpl;

struct Entry { absl::LogSeverity severity; std::string file; int line; std::string text; };
struct Sink : absl::LogSink {
  void Send(const absl::LogEntry& e) override {
    const std::lock_guard<std::mutex> lock(mu);
    got.push_back({e.log_severity(), std::string(e.source_filename()), e.source_line(), std::string(e.text_message())});
  }
  std::vector<Entry> Take() { const std::lock_guard<std::mutex> lock(mu); return std::exchange(got, {}); }
  std::mutex mu;
  std::vector<Entry> got;
};
Sink& TheSink() { static Sink* s = [] { auto* n = new Sink; absl::AddLogSink(n); return n; }(); return *s; }

// The part behind the location: "LogTiming(<duration> @ <function>)" + (message empty ? "" : ": " + message).
bool TextOk(const std::string& text, const std::string& msg) {
  const std::string tail = ")" + (msg.empty() ? std::string() : ": " + msg);
  return text.rfind("LogTiming(", 0) == 0 && text.size() >= 10 + 3 + tail.size() && text.compare(text.size() - tail.size(), tail.size(), tail) == 0 && text.find(" @ ") != std::string::npos;
}
void Pass(LogTimingImpl t, int n) { if (n > 0) { Pass(std::move(t), n - 1); } }

void One(vh::Rng& r) {
  Sink& sink = TheSink();
  sink.Take();
  const absl::Duration elapsed = absl::Seconds(r.Of<int>({-2000, 0, 1000, 5000, 100000}));
  const absl::Duration bound = r.Of({absl::Seconds(-1000), absl::Seconds(500), absl::Seconds(3000), absl::Seconds(50000), absl::InfiniteDuration(), -absl::InfiniteDuration()});
  const bool by_flag = r.Coin();
  absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, by_flag ? bound : r.Of({absl::InfiniteDuration(), -absl::InfiniteDuration()}));
  const auto severity = static_cast<absl::LogSeverity>(r.Below(3));
  const auto always = static_cast<absl::LogSeverity>(r.Below(4));
  absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, always);
  const std::string text = r.Coin() ? "" : r.Text("abc ", r.Below(20));
  const bool logs = elapsed > bound || severity >= always;
  const auto here = std::source_location::current();
  std::string want = text;
  const int how = static_cast<int>(r.Below(7));
  const std::string ctx = "elapsed " + std::to_string(absl::ToInt64Seconds(elapsed)) + " bound " + std::to_string(absl::ToDoubleSeconds(bound)) + (by_flag ? " by flag" : "") + " severity " + std::to_string(static_cast<int>(severity)) + " always " + std::to_string(static_cast<int>(always)) + " how " + std::to_string(how);
  vh::Case(ctx);
  const auto make = [&] {
    return LogTimingImpl({.severity = severity, .min_duration = by_flag ? std::optional<absl::Duration>() : std::optional<absl::Duration>(bound), .start_time = absl::Now() - elapsed, .src = here});
  };
  switch (how) {
    case 0: { const auto t = make() << text; vh::Check(sink.Take().empty(), "early", ctx + " logs before the scope ends"); break; }
    case 1: { auto t = make() << text << 42 << std::string_view("x"); want += "42x"; auto u = std::move(t); vh::Check(sink.Take().empty(), "early", ctx + " logs when moved"); break; }
    case 2: Pass(make() << text, static_cast<int>(r.Below(5))); break;
    case 3: {  // Several moves from the same one: still only one message.
      auto t = make() << text;
      auto u = std::move(t);
      auto v = std::move(t);  // NOLINT(bugprone-use-after-move)
      auto w = std::move(v);  // NOLINT(bugprone-use-after-move)
      break;
    }
    case 4: { std::vector<LogTimingImpl> v; v.push_back(make() << text); v.reserve(v.capacity() + 8); vh::Check(sink.Take().empty(), "early", ctx + " logs when the vector grows"); break; }
    case 5: { try { const auto t = make() << text; throw 1; } catch (int) {} break; }
    default: { LogTiming({.severity = severity, .min_duration = by_flag ? std::optional<absl::Duration>() : std::optional<absl::Duration>(bound), .start_time = absl::Now() - elapsed, .src = here}) << text; break; }
  }
  const auto got = sink.Take();
  vh::Check(got.size() == (logs ? 1U : 0U), logs ? "logged_once" : "not_logged", [&] { return ctx + " logs " + std::to_string(got.size()) + " messages"; });
  for (const Entry& e : got) {
    vh::Check(e.severity == severity && e.file == here.file_name() && e.line == static_cast<int>(here.line()), "where", [&] { return ctx + " logged at " + e.file + ":" + std::to_string(e.line) + " severity " + std::to_string(static_cast<int>(e.severity)); });
    vh::Check(TextOk(e.text, want), "text", [&] { return ctx + " logs " + vh::Json(e.text) + " for the text " + vh::Json(want); });
  }
  vh::Eval();
  vh::Count(logs ? "logged" : "suppressed");
  vh::Distinct(vh::HashAll(ctx, text));
}
}  // namespace

void VhMain() {
  absl::SetStderrThreshold(absl::LogSeverityAtLeast::kInfinity);
  vh::Section("scopes", 20000, 1000000, [](vh::Rng& r, std::uint64_t) { One(r); });
  vh::Section("nested", 500, 50000, [](vh::Rng& r, std::uint64_t) {
    // Scopes end in the reverse order of their creation.
    absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::ZeroDuration());
    TheSink().Take();
    const int n = 1 + static_cast<int>(r.Below(6));
    std::function<void(int)> nest = [&](int k) {
      if (k == n) { return; }
      const auto t = LogTiming({.start_time = absl::Now() - absl::Seconds(5)}) << "n" << k;
      nest(k + 1);
    };
    nest(0);
    const auto got = TheSink().Take();
    bool ok = got.size() == static_cast<std::size_t>(n);
    for (int k = 0; ok && k < n; ++k) { ok = TextOk(got[static_cast<std::size_t>(k)].text, "n" + std::to_string(n - 1 - k)); }
    vh::Check(ok, "nested", std::to_string(n) + " nested scopes log " + std::to_string(got.size()));
    vh::Eval();
  });
  vh::Section("threads", 5, 200, [](vh::Rng&, std::uint64_t) {
    absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::ZeroDuration());
    TheSink().Take();
    std::vector<std::thread> threads;
    for (int t = 0; t < 6; ++t) {
      threads.emplace_back([t] { for (int i = 0; i < 50; ++i) { const auto x = LogTiming({.start_time = absl::Now() - absl::Seconds(5)}) << "t" << t << "." << i << "."; } });
    }
    for (auto& t : threads) { t.join(); }
    std::set<std::string> texts;
    const auto got = TheSink().Take();
    for (const auto& e : got) { texts.insert(e.text.substr(e.text.rfind(": "))); }
    vh::Check(got.size() == 300 && texts.size() == 300, "threads", "300 scopes on 6 threads log " + std::to_string(got.size()) + " messages, " + std::to_string(texts.size()) + " different");
    vh::Eval();
  });
  vh::Section("names", 20000, 2000000, [](vh::Rng& r, std::uint64_t) {
    static const std::vector<std::string> kNames = {
        "", "main", "int main()", "auto Foo::operator()()", "operator()", "X operator()", "a operator()", "Foo::operator()", "operator()()", "auto foo(int, int) const",
        "std::function<void(void)> Foo<int, std::function<void(int, bool)>>(bool x, std::function<void(bool)>) const &",
        "auto ns::Class::Method(X &, const Y &)::(anonymous class)::operator()()::(anonymous class)::operator()() const",
        "mbo::log::log_internal::(anonymous namespace)::Test::TestBody", "main()::<lambda()>", "f<(char)40>() [with auto X = 3]", "bool operator<(A, B)", "X operator>>(A, B)", "A operator->()", "(", ")", "()", "<>", ">", ")("};
    std::string s = r.Pick(kNames);
    switch (r.Below(4)) {
      case 0: s = r.Text("()<>: operatx", r.Below(24)); break;
      case 1: for (std::uint64_t k = r.Below(4); k > 0 && !s.empty(); --k) { s.erase(r.Below(s.size()), 1 + r.Below(3)); } break;
      case 2: s.insert(r.Below(s.size() + 1), r.Of<std::string>({"(", ")", "<", ">", "operator()", "::", " ", "(anonymous class)::operator()"})); break;
      default: break;
    }
    vh::Case("function name " + vh::Json(s));
    const auto child_safe = [&] {
      try { return mbo::log::log_internal::StripFunctionNameTest::Strip(s); } catch (const std::exception& e) { vh::Fail("name_throws", vh::Json(s) + " throws " + e.what()); return std::string(); }
    };
    const std::string got = child_safe();
    vh::Check(got.size() <= s.size() && (s.find("anonymous class") != std::string::npos || s.find(got) != std::string::npos), "name", [&] { return vh::Json(s) + " becomes " + vh::Json(got); });
    // A plain function: its qualified name, whatever the parameters and the result.
    const std::string name = r.Of<std::string>({"foo", "ns::foo", "a::b::C::Method", "~X", "ns::X::~X"});
    const std::string result = r.Of<std::string>({"", "int ", "void ", "std::vector<int> ", "std::map<int, std::function<void(int)>> ", "auto "});
    const std::string params = r.Of<std::string>({"()", "(int)", "(int, char) const", "(std::function<void(bool)>) const &", "(const X<int, (char)3> &) noexcept"});
    vh::Eq("plain_name", mbo::log::log_internal::StripFunctionNameTest::Strip(result + name + params), name, result + name + params);
    vh::Eval();
    vh::Distinct(vh::HashAll(s));
  });
}
