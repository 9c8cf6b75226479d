// VH-SRC: mbo/mope/mope.cc
// VH-SRC: mbo/mope/ini.cc
// VH-SRC: mbo/file/ini/ini_file.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/types/stringify.cc
// VH-SRC: mbo/log/demangle.cc
// VH-LIBS: -lpcre2-8
// VH-CXXFLAGS: -g1
// VH-RULE: random template programs (values, nested sections with joins, ranges, lists, control tags, comments, standalone and inline tags, text full of braces) are written out as text and expanded by the code over random data built through the API (with entries filled in any order) or an INI file and context data; an evaluator over the program, which never sees the text, says what each must give or that it must fail; expansions are repeated for determinism and the output of values holding tags must not be expanded again
// VH-ASSUME: the regular expression library behaves as RE2 on the patterns used (a stand-in over PCRE2 is compiled in)
#include <algorithm>
#include <climits>
#include <cstdint>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "mbo/container/any_scan.h"
#include "mbo/mope/ini.h"
#include "mbo/mope/mope.h"
#include "mope_model.h"
#include "vh.h"

namespace {
using namespace mope_model;  // NOLINT

// Fill a Template from a scope. Entries are added first and filled in any order, as the returned pointers allow.
void Fill(vh::Rng& r, const Scope& s, mbo::mope::Template& t) {
  std::vector<std::pair<const Scope*, mbo::mope::Template*>> todo = {{&s, &t}};
  while (!todo.empty()) {
    const std::size_t k = r.Below(todo.size());
    const auto [sc, tp] = todo[k];
    todo.erase(todo.begin() + static_cast<std::ptrdiff_t>(k));
    for (const auto& [n, v] : sc->vals) {
      if (r.Chance(1, 8)) {
        vh::Check(tp->SetValue(n, "old").ok() && tp->SetValue(n, v, true).ok(), "set:update", "SetValue of a new and then an existing value with allow_update fails");
        vh::Check(tp->SetValue(n, "again").code() == absl::StatusCode::kAlreadyExists, "set:again", "a second SetValue without allow_update is not refused");
      } else {
        vh::Check(tp->SetValue(n, v).ok(), "set:new", "SetValue of a new value fails");
      }
      if (r.Chance(1, 16)) { vh::Check(!tp->AddSection(n).ok(), "set:section_over_value", "AddSection over a value is not refused"); }
    }
    for (const auto& [n, es] : sc->secs) {
      for (const Scope& e : es) {
        auto p = tp->AddSection(n);
        if (!vh::Check(p.ok(), "set:add_section", "AddSection fails")) { return; }
        todo.emplace_back(&e, *p);
      }
      if (r.Chance(1, 16)) { vh::Check(!tp->SetValue(n, "x", r.Coin()).ok(), "set:value_over_section", "SetValue over a section is not refused"); }
    }
  }
}

void WriteIni(const Scope& s, const std::string& group, std::vector<std::pair<std::string, std::string>>& out) {
  std::string data;
  for (const auto& [n, v] : s.vals) { data += n + "=" + v + "\n"; }
  out.emplace_back(group, data);
  for (const auto& [n, es] : s.secs) {
    for (std::size_t k = 0; k < es.size(); ++k) {
      WriteIni(es[k], (group.empty() ? "" : group + ".") + n + (k > 0 ? ":" + std::to_string(k) : ""), out);
    }
  }
}

void Compare(const mbo::mope::Template& t, const std::string& text, const Scope& data, const std::map<std::string, std::string>& context, const Prog& prog, const std::string& how) {
  const auto want = Evaluate(prog, data, context);
  if (want.too_big) { return; }
  std::string first, out;
  for (int k = 0; k < 2; ++k) {
    out = text;
    const absl::Status st = context.empty() && k == 0 ? t.Expand(out) : t.Expand(out, mbo::container::MakeConvertingScan(context));
    vh::Eval();
    const auto ctx = [&] { return how + (want.ok ? " want " + vh::Show(want.out) : " want error: " + want.why) + (st.ok() ? " got " + vh::Show(out) : " got " + st.ToString()) + " template " + vh::Show(text) + " data " + Show(data) + " context " + vh::Show(ShowMap(context)); };
    if (!want.ok) {
      vh::Count("expansions that must fail", 1);
      vh::Count("error: " + want.why, 1);
      vh::Check(!st.ok(), "missed_error:" + want.why, ctx);
      return;
    }
    if (!st.ok()) {
      vh::Check(false, "error", ctx);
      return;
    }
    if (!vh::Check(out == want.out, "expand", ctx)) { return; }
    if (k == 0) { first = out; }
  }
  vh::Distinct(vh::HashAll(text, first));
  vh::Count("expansions compared", 1);
}

void One(vh::Rng& r, std::uint64_t) {
  Gen g{r};
  const bool ini = r.Chance(1, 4);
  g.ini = ini;
  const Scope data = g.RandScope(3, true);
  std::map<std::string, std::string> context;
  if (r.Chance(1, 3)) {
    for (std::size_t n = r.Range(1, 3); n > 0; --n) {
      const std::string name = r.Coin() ? r.Pick(kControls) : g.AnyName();
      context[name] = g.RandValue();
    }
  }
  mbo::mope::Template t;
  if (ini) {
    std::vector<std::pair<std::string, std::string>> groups;
    WriteIni(data, "", groups);
    if (groups.size() > 2) {
      for (std::size_t k = groups.size() - 1; k > 1; --k) { std::swap(groups[k], groups[1 + r.Below(k)]); }
    }
    std::string text;
    for (const auto& [n, d] : groups) { text += (n.empty() ? "" : "[" + n + "]\n") + d; }
    const std::string path = vh::E().scratch + "/data.ini";
    std::ofstream(path, std::ios::binary) << text;
    const auto st = mbo::mope::ReadIniToTemlate(path, t);
    if (!vh::Check(st.ok(), "ini", [&] { return st.ToString() + " for " + vh::Show(text); })) { return; }
    vh::Count("INI files", 1);
  } else {
    Fill(r, data, t);
  }
  for (std::size_t n = r.Range(1, 4); n > 0; --n) {
    const Prog prog = g.RandProg();
    const std::string text = g.Emit(prog);
    Compare(t, text, data, context, prog, ini ? "(ini)" : "(api)");
    for (const auto& [k, c] : g.kinds) { vh::Count(k, c); }
    g.kinds.clear();
  }
}

// Near the limits of int.
void Limits(vh::Rng& r, std::uint64_t) {
  Gen g{r};
  const bool top = r.Coin();
  const std::int64_t lim = top ? INT_MAX : INT_MIN;
  const std::int64_t a = lim + (top ? -1 : 1) * static_cast<std::int64_t>(r.Below(6));
  const std::int64_t b = r.Coin() ? lim : lim + (top ? -1 : 1) * static_cast<std::int64_t>(r.Below(6));
  std::int64_t step = (r.Coin() ? 1 : -1) * r.Of<std::int64_t>({1, 2, 3, 5, 1000000, INT_MAX});
  if (r.Chance(1, 16)) { step = INT_MIN; }
  const bool with_step = r.Chance(3, 4) || step != 1;
  Node n;
  n.kind = Kind::kRange;
  n.name = "i";
  n.from = {"", a};
  n.to = {"", b};
  n.has_step = with_step;
  n.step = {"", with_step ? step : 1};
  n.join = Join{Join::kLiteral, ","};
  Node v;
  v.kind = Kind::kValue;
  v.name = "i";
  n.body = {v};
  Prog p;
  p.nodes = {n};
  const std::string text = g.Emit(p);
  Compare(mbo::mope::Template(), text, Scope{}, {}, p, "(limits)");
}

// Names: IsValidName, SetValue and AddSection agree with the documented form.
void Names(vh::Rng& r, std::uint64_t) {
  std::string n;
  for (std::size_t k = r.Below(5); k > 0; --k) { n += r.Pick("aZz09_ -.:{}\n"); }
  if (r.Chance(1, 16)) { n = std::string("a\0b", 3); }
  if (r.Chance(1, 16)) { n = "\xc3\xa4"; }
  bool ok = !n.empty() && !(n[0] >= '0' && n[0] <= '9');
  for (const char c : n) { ok = ok && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'); }
  mbo::mope::Template a, b;
  vh::Eq("name", mbo::mope::Template::IsValidName(n), ok, vh::Show(n));
  vh::Eq("name:set", a.SetValue(n, "v").ok(), ok, vh::Show(n));
  vh::Eq("name:section", b.AddSection(n).ok(), ok, vh::Show(n));
  std::string s = "{{" + n + "}}|";
  const std::string before = s;
  const bool colon = n.find_first_of(":}") != std::string::npos;  // "{{name:option}}" and "{{name}}}}" are not texts
  if (!colon && a.Expand(s).ok()) { vh::Eq("name:expand", s, ok ? std::string("v|") : before, vh::Show(n)); }
  const std::vector<std::pair<std::string, std::string>> one = {{n, "v"}}, two = {{n, "v"}, {n, "w"}};
  s = before;
  vh::Eq("name:context", mbo::mope::Template().Expand(s, mbo::container::MakeConvertingScan(one)).ok(), ok, vh::Show(n));
  vh::Check(!mbo::mope::Template().Expand(s, mbo::container::MakeConvertingScan(two)).ok(), "context:duplicate", "a name given twice as context data is not refused");
  vh::Eval(6);
  vh::Distinct(vh::HashAll(n));
}
}  // namespace

void VhMain() {
  vh::Section("expansion against the evaluator", 12000, 400000, One);
  vh::Section("ranges at the limits of int", 400, 4000, Limits);
  vh::Section("names", 1500, 20000, Names);
}
