// VH-SRC: mbo/types/stringify.cc mbo/types/stringify_ostream.cc mbo/log/demangle.cc
// VH-OPT: -O1
// VH-CXXFLAGS: -ftemplate-depth=5000
// VH-VARIANT: asan
// VH-VARIANT: tsan SAN=thread
// VH-SHARDS: 4
// VH-RULE: 2 to 4 threads stream values and set the process-wide options (every option set carries its own id in nine of its groups, so a mixed set shows) with injected delays; recorded histories are checked as a register: each text is wholly of one option set, that set was written before the read ended and not overwritten before the read began, and reads never go back. Fresh processes whose first uses collide; options changed, from the same thread, in the middle of a stream; options freed after they were replaced. Run under the thread sanitizer and the address sanitizer. A case is a history.
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "mbo/types/stringify.h"
#include "mbo/types/stringify_ostream.h"
#include "vh.h"

namespace {
using mbo::types::SetStringifyOstreamOptions;
using mbo::types::SetStringifyOstreamOutputMode;
using mbo::types::Stringify;
using mbo::types::StringifyFieldOptions;
using mbo::types::StringifyOptions;

struct Sub {
  int x = 7;
  std::string y = "y";
};
struct Val {
  using MboTypesStringifySupport = void;
  int one = 11;
  std::string two = "t";
  std::vector<int> three{1, 2, 3};
  Sub sub;
  std::optional<int> none;
  const int* null = nullptr;
};
// A second and third type so that the caches of names see colliding first uses.
struct ValB {
  using MboTypesStringifySupport = void;
  std::variant<int, std::string> v = 3;
  std::map<std::string, int> m{{"a", 1}, {"b", 2}};
};
struct ValC {
  using MboTypesStringifySupport = void;
  int a = 1;
  std::pair<int, std::string> p{2, "p"};
  friend std::vector<std::string> MboTypesStringifyFieldNames(const ValC&) { return {"AA", "PP"}; }
};
template <typename T> std::string Stream(const T& v) { std::ostringstream os; os << v; return os.str(); }
std::string Text(const StringifyOptions& o, std::size_t type) { const Stringify s(o); return type == 0 ? s.ToString(Val{}) : type == 1 ? s.ToString(ValB{}) : s.ToString(ValC{}); }
std::string Stream(std::size_t type) { return type == 0 ? Stream(Val{}) : type == 1 ? Stream(ValB{}) : Stream(ValC{}); }

// Options that carry an id wherever a text can.
struct Made {
  std::vector<std::string> keep;
  StringifyOptions o;
  explicit Made(std::size_t id) : o(Stringify::OptionsCpp()) {
    keep.reserve(16);
    auto s = [&](const char* what) -> std::string_view { keep.push_back(what + std::to_string(id)); return keep.back(); };
    auto& f = o.format.as_data();
    f.message_prefix = s("M");
    f.message_suffix = s("m");
    f.field_separator = s(",");
    f.structure_prefix = s("{");
    f.structure_suffix = s("}");
    f.container_prefix = s("[");
    f.container_suffix = s("]");
    f.string_delim = s("'");
    o.key_control.as_data().key_prefix = s("K");
    o.value_control.as_data().nullopt_str = s("N");
    o.value_control.as_data().nullptr_v_str = s("P");
    o.value_overrides.as_data().replacement_other = s("O");
  }
};

struct Op {
  bool write = false;
  std::size_t start = 0, end = 0, id = 0;  // id 0: the initial options.
  std::size_t type = 0;
  std::string text;
};

// The single thread contract.
void Sequential(vh::Rng& r, std::uint64_t) {
  const std::pair<Stringify::OutputMode, const StringifyOptions*> modes[] = {
      {Stringify::OutputMode::kDefault, &Stringify::OptionsDefault()}, {Stringify::OutputMode::kCpp, &Stringify::OptionsCpp()}, {Stringify::OutputMode::kCppPretty, &Stringify::OptionsCppPretty()},
      {Stringify::OutputMode::kJson, &Stringify::OptionsJson()}, {Stringify::OutputMode::kJsonLine, &Stringify::OptionsJsonLine()}, {Stringify::OutputMode::kJsonPretty, &Stringify::OptionsJsonPretty()}};
  std::unique_ptr<Made> cur;
  std::string log;
  for (int k = 0; k < 8; ++k) {
    const StringifyOptions* now = nullptr;
    if (r.Coin()) {
      const auto& m = modes[r.Below(6)];
      SetStringifyOstreamOutputMode(m.first);
      log += " mode" + std::to_string(static_cast<int>(m.first));
      now = m.second;
      cur.reset();  // No longer in use.
    } else {
      auto next = std::make_unique<Made>(r.Below(1000));
      SetStringifyOstreamOptions(next->o);
      log += " options";
      cur = std::move(next);  // Frees the one before.
      now = &cur->o;
    }
    for (std::size_t t = 0; t < 3; ++t) {
      vh::Case(log);
      vh::Eval();
      vh::Eq("sequential", Stream(t), Text(*now, t), log);
    }
  }
  vh::Distinct(vh::HashOf(log));
  SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);
}

// A stream in progress keeps its options whatever is set meanwhile.
std::vector<int>* g_change = nullptr;
struct Changer {
  using MboTypesStringifySupport = void;
  int id = 0;
  std::vector<int> data{1, 2};
  friend const std::vector<int>& MboTypesStringifyValueAccess(const Changer& v, const StringifyFieldOptions&) {
    if (g_change != nullptr) {
      g_change->push_back(v.id);
      SetStringifyOstreamOutputMode(v.id % 2 == 0 ? Stringify::OutputMode::kJsonPretty : Stringify::OutputMode::kCppPretty);
      (void)Stream(ValC{});  // Streams within streams.
    }
    return v.data;
  }
};
struct Outer {
  using MboTypesStringifySupport = void;
  int a = 1;
  Changer c1{.id = 1};
  std::string b = "b";
  Changer c2{.id = 2};
  std::optional<int> d;
};
void Within(vh::Rng& r, std::uint64_t) {
  auto made = std::make_unique<Made>(r.Below(1000));
  const std::string want = Stringify(made->o).ToString(Outer{});
  SetStringifyOstreamOptions(made->o);
  std::vector<int> calls;
  g_change = &calls;
  const std::string got = Stream(Outer{});
  g_change = nullptr;
  vh::Eval();
  vh::Distinct(vh::HashOf(got));
  vh::Eq("within", got, want, "options were changed in the middle of a stream");
  vh::Check(calls.size() == 2, "within:calls", [&] { return std::to_string(calls.size()); });
  made.reset();
  vh::Eq("within:after", Stream(Val{}), Stringify::AsJsonPretty().ToString(Val{}), "the last options set");
  SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);
}

// Returns what is wrong with the history of a register.
std::string CheckHistory(const std::vector<Op>& ops) {
  std::map<std::size_t, const Op*> writes;
  for (const Op& o : ops) { if (o.write) { writes[o.id] = &o; } }
  auto show = [](const Op& o) { return std::string(o.write ? "W" : "R") + std::to_string(o.id) + "[" + std::to_string(o.start) + "," + std::to_string(o.end) + "]"; };
  // w1 wholly before w2; the initial options are before everything.
  auto before = [&](std::size_t a, std::size_t b) { if (b == 0) { return false; } if (a == 0) { return true; } return writes.at(a)->end < writes.at(b)->start; };
  for (const Op& r : ops) {
    if (r.write) { continue; }
    if (r.id != 0) {
      const auto w = writes.find(r.id);
      if (w == writes.end()) { return "unknown options " + show(r); }
      if (w->second->start > r.end) { return "options from the future " + show(r) + " " + show(*w->second); }
    }
    for (const auto& [id, w] : writes) {
      if (id != r.id && before(r.id, id) && w->end < r.start) { return "stale options " + show(r) + " overwritten by " + show(*w); }
    }
    for (const Op& q : ops) {
      if (q.write || q.end >= r.start) { continue; }
      if (q.id != r.id && before(r.id, q.id)) { return "went back from " + show(q) + " to " + show(r); }
    }
  }
  return "";
}

// One history in the current process, which must not have streamed or set before if `fresh`.
void History(vh::Rng& r, bool fresh) {
  const std::size_t threads = r.Range(2, 4), each = fresh ? r.Range(2, 6) : r.Range(5, 25);
  const bool many_writes = r.Coin();
  // All option sets outlive the history.
  std::vector<std::unique_ptr<Made>> made;
  made.push_back(nullptr);
  std::vector<std::map<std::string, std::size_t>> known(3);
  for (std::size_t t = 0; t < 3; ++t) { known[t][Text(Stringify::OptionsDefault(), t)] = 0; }
  std::vector<std::vector<Op>> ops(threads);
  std::vector<std::vector<unsigned>> delays(threads);
  for (std::size_t k = 0; k < threads; ++k) {
    for (std::size_t n = 0; n < each; ++n) {
      Op o;
      o.write = many_writes ? r.Coin() : r.Chance(1, 6);
      o.type = r.Below(3);
      if (o.write) { o.id = made.size(); made.push_back(std::make_unique<Made>(o.id)); for (std::size_t t = 0; t < 3 && !fresh; ++t) { known[t][Text(made.back()->o, t)] = o.id; } }
      ops[k].push_back(o);
      delays[k].push_back(r.Chance(1, 3) ? static_cast<unsigned>(r.Below(60)) : 0);
    }
  }
  if (!fresh) { SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault); }
  std::atomic<std::size_t> clock{1};
  std::atomic<std::size_t> ready{0};
  std::vector<std::thread> ts;
  for (std::size_t k = 0; k < threads; ++k) {
    ts.emplace_back([&, k] {
      ++ready;
      while (ready.load() < threads) {}
      for (std::size_t n = 0; n < each; ++n) {
        Op& o = ops[k][n];
        if (delays[k][n] != 0) { std::this_thread::sleep_for(std::chrono::microseconds(delays[k][n])); }
        o.start = clock.fetch_add(1);
        if (o.write) { SetStringifyOstreamOptions(made[o.id]->o); } else { o.text = Stream(o.type); }
        o.end = clock.fetch_add(1);
      }
    });
  }
  for (std::thread& t : ts) { t.join(); }
  if (fresh) { for (std::size_t id = 1; id < made.size(); ++id) { for (std::size_t t = 0; t < 3; ++t) { known[t][Text(made[id]->o, t)] = id; } } }
  std::vector<Op> all;
  std::size_t overlaps = 0;
  std::string trace;
  for (auto& v : ops) {
    for (Op& o : v) {
      if (!o.write) {
        const auto it = known[o.type].find(o.text);
        vh::Check(it != known[o.type].end(), "torn", [&] { return "a text of no option set " + vh::Json(o.text); });
        if (it == known[o.type].end()) { continue; }
        o.id = it->second;
      }
      all.push_back(o);
    }
  }
  for (const Op& a : all) { for (const Op& b : all) { overlaps += static_cast<std::size_t>(a.write && !b.write && a.start < b.end && b.start < a.end); } }
  std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.start < b.start; });
  for (const Op& o : all) { trace += (o.write ? "W" : "R") + std::to_string(o.id) + "[" + std::to_string(o.start) + "," + std::to_string(o.end) + "] "; }
  vh::Case(trace);
  vh::Eval(all.size());
  vh::Distinct(vh::HashOf(trace));
  vh::Count("reads overlapping a write", overlaps);
  vh::Count("histories with overlap", overlaps != 0 ? 1 : 0);
  const std::string bad = CheckHistory(all);
  vh::Check(bad.empty(), "history", [&] { return bad + " in " + trace.substr(0, 1500); });
  SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);  // The option sets end here.
}
void Histories(vh::Rng& r, std::uint64_t) { History(r, false); }

// The first uses in a process collide: streams only, so that the initial options and every cached name are made by racing threads.
void Fresh(vh::Rng& r, std::uint64_t) {
  vh::Rng sub(r.Next());
  const auto res = vh::RunChild([&] {
    const std::size_t threads = 3;
    std::atomic<std::size_t> ready{0};
    std::vector<std::string> texts(threads);
    std::vector<std::thread> ts;
    const std::size_t base = sub.Below(3);
    for (std::size_t k = 0; k < threads; ++k) {
      ts.emplace_back([&, k] {
        ++ready;
        while (ready.load() < threads) {}
        texts[k] = Stream((base + k / 2) % 3);
      });
    }
    for (auto& t : ts) { t.join(); }
    int bad = 0;
    for (std::size_t k = 0; k < threads; ++k) { bad += static_cast<int>(texts[k] != Text(Stringify::OptionsDefault(), (base + k / 2) % 3)); }
    if (bad != 0) { std::fprintf(stderr, "FRESH %s %s %s\n", texts[0].c_str(), texts[1].c_str(), texts[2].c_str()); std::fflush(stderr); _exit(3); }
    _exit(0);
  }, 60);
  vh::Eval();
  vh::Count("fresh processes");
  vh::Distinct(vh::HashAll(r.Next()));
  vh::Check(res.exited && res.code == 0 && res.err.find("ThreadSanitizer") == std::string::npos, "fresh", [&] { return res.err.substr(0, 1500); });
}

// Modes and options replaced and freed while others stream: nobody may still look at what was freed.
void Modes(vh::Rng& r, std::uint64_t) {
  const std::set<std::string> want{Stringify().ToString(Val{}), Stringify::AsCpp().ToString(Val{}), Stringify::AsJson().ToString(Val{}), Stringify::AsJsonPretty().ToString(Val{}), Stringify::AsCppPretty().ToString(Val{})};
  const Stringify::OutputMode modes[] = {Stringify::OutputMode::kDefault, Stringify::OutputMode::kCpp, Stringify::OutputMode::kJson, Stringify::OutputMode::kJsonPretty, Stringify::OutputMode::kCppPretty};
  SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);
  std::atomic<bool> stop{false};
  std::vector<std::string> bad(2);
  std::vector<std::size_t> reads(2);
  std::vector<std::set<std::string>> seen(2);
  std::vector<std::thread> ts;
  for (std::size_t k = 0; k < 2; ++k) {
    ts.emplace_back([&, k] {
      for (int n = 0; n < 40 || (!stop.load() && n < 4000); ++n) { const std::string s = Stream(Val{}); ++reads[k]; if (!want.contains(s)) { bad[k] = s; } seen[k].insert(s); }
    });
  }
  for (std::size_t k = 0; k < 60; ++k) { SetStringifyOstreamOutputMode(modes[r.Below(5)]); if (r.Chance(1, 4)) { std::this_thread::sleep_for(std::chrono::microseconds(r.Below(50))); } }
  stop = true;
  for (auto& t : ts) { t.join(); }
  for (const auto& b : bad) { vh::Check(b.empty(), "modes", [&] { return "a text of no mode " + vh::Json(b); }); }
  vh::Eval(reads[0] + reads[1]);
  vh::Count("modes seen by a reader", seen[0].size() + seen[1].size());
  vh::Distinct(vh::HashAll(r.Next()));
  SetStringifyOstreamOutputMode(Stringify::OutputMode::kDefault);
}
}  // namespace

void VhMain() {
  vh::Section("fresh", 120, 3000, Fresh);  // First: the process has not streamed yet.
  vh::Section("sequential", 400, 10000, Sequential);
  vh::Section("within", 400, 10000, Within);
  vh::Section("histories", 600, 30000, Histories);
  vh::Section("modes", 80, 3000, Modes);
}
