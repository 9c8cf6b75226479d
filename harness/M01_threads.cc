// VH-SRC: mbo/mope/mope.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/types/stringify.cc
// VH-SRC: mbo/log/demangle.cc
// VH-LIBS: -lpcre2-8
// VH-SAN: thread
// VH-RULE: several threads expand one const template at the same time under the thread sanitizer; each result must be the one the evaluator gives
#include <atomic>
#include <string>
#include <thread>
#include <vector>

#include "mbo/mope/mope.h"
#include "mope_model.h"
#include "vh.h"

namespace {
using namespace mope_model;  // NOLINT
void Fill(const Scope& s, mbo::mope::Template& t) {
  for (const auto& [n, v] : s.vals) { (void)t.SetValue(n, v); }
  for (const auto& [n, es] : s.secs) {
    for (const Scope& e : es) { Fill(e, **t.AddSection(n)); }
  }
}
void One(vh::Rng& r, std::uint64_t) {
  Gen g{r};
  const Scope data = g.RandScope(2, true);
  mbo::mope::Template t;
  Fill(data, t);
  std::vector<std::string> texts;
  std::vector<Result> want;
  for (std::size_t k = 0; texts.size() < 4 && k < 40; ++k) {
    const Prog p = g.RandProg();
    Result w = Evaluate(p, data, {});
    if (w.too_big || w.out.size() > 4000) { continue; }
    texts.push_back(g.Emit(p));
    want.push_back(std::move(w));
  }
  if (texts.empty()) { return; }
  const mbo::mope::Template& c = t;
  std::vector<std::string> bad(4);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (std::size_t k = 0; k < 4; ++k) {
    ts.emplace_back([&, k] {
      ++ready;
      while (ready.load() < 4) {}
      for (std::size_t n = 0; n < 6; ++n) {
        const std::size_t w = (n + k / 2) % texts.size();
        std::string out = texts[w];
        const bool ok = c.Expand(out).ok();
        if (ok != want[w].ok || (ok && out != want[w].out)) { bad[k] = texts[w] + " gave " + out; }
      }
    });
  }
  for (std::thread& x : ts) { x.join(); }
  for (const std::string& b : bad) { vh::Check(b.empty(), "threads", b); }
  vh::Eval(24);
  vh::Count("concurrent expansions", 24);
  vh::Distinct(vh::HashAll(texts[0]));
}
}  // namespace

void VhMain() { vh::Section("one template, four threads", 300, 8000, One); }
