// VH-SRC: mbo/diff/diff.cc
// VH-SRC: mbo/diff/base_diff.cc
// VH-SRC: mbo/diff/chunked_diff.cc
// VH-SRC: mbo/diff/diff_options.cc
// VH-SRC: mbo/diff/impl/diff_direct.cc
// VH-SRC: mbo/diff/impl/diff_myers.cc
// VH-SRC: mbo/diff/impl/diff_naive.cc
// VH-SRC: mbo/diff/internal/chunk.cc
// VH-SRC: mbo/diff/internal/data.cc
// VH-SRC: mbo/diff/internal/output.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/strings/strip.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: pairs of random texts (edited copies, unrelated texts, moved blocks, lines that look like diff syntax, arbitrary bytes, missing final newlines, empty texts) x algorithms x formats x context sizes 0..8 and huge; the output is read by independent strict readers of the three formats, checked (counts, positions, order, context lines) and applied; a sample is also applied by the patch program without fuzz or offset, a sample side by side
// VH-ASSUME: GNU patch applies well-formed diffs correctly
#include <fstream>
#include <limits>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/diff/diff.h"
#include "ref_diff.h"
#include "vh.h"

namespace {
using mbo::diff::Diff;
using Opt = mbo::diff::DiffOptions;
constexpr Opt::Algorithm kAlgos[] = {Opt::Algorithm::kNaive, Opt::Algorithm::kDirect, Opt::Algorithm::kMyers};
const char* const kAlgoNames[] = {"naive", "direct", "myers"};
const char* const kFormatNames[] = {"unified", "context", "normal"};

std::string Ctx(const ref::Pair& p, int algo, int fmt, std::size_t context, const std::string& out) {
  return std::string(kAlgoNames[algo]) + " " + kFormatNames[fmt] + " context=" + std::to_string(context) + " lhs=" + vh::Show(p.lhs.substr(0, 600)) + " rhs=" + vh::Show(p.rhs.substr(0, 600)) + " diff=" + vh::Show(out.substr(0, 1200));
}

std::size_t RandContext(vh::Rng& r) {
  switch (r.Below(8)) {
    case 0: return 0;
    case 1: return r.Of<std::size_t>({1000, std::numeric_limits<std::size_t>::max() / 2, std::numeric_limits<std::size_t>::max() / 2 + 1, std::numeric_limits<std::size_t>::max()});
    case 2: return 3;
    default: return r.Below(9);
  }
}

// The number of unchanged lines before the first and behind the last change of each hunk, and within.
void CheckContextLines(const ref::Script& s, std::size_t lhs_lines, std::size_t context, const std::string& key, const std::string& ctx) {
  std::size_t prev_end = 0;
  for (std::size_t n = 0; n < s.hunks.size(); ++n) {
    const ref::Hunk& h = s.hunks[n];
    std::size_t lead = 0, trail = 0;
    while (lead < h.ops.size() && h.ops[lead].kind == ' ') { ++lead; }
    while (trail < h.ops.size() && h.ops[h.ops.size() - 1 - trail].kind == ' ') { ++trail; }
    const std::size_t want_lead = std::min(context, h.l + lead - prev_end);
    const std::size_t end = h.l + h.ln;
    const std::size_t next = n + 1 < s.hunks.size() ? s.hunks[n + 1].l : lhs_lines;
    const std::size_t want_trail = std::min(context, next - end + trail);
    vh::Check(lead == want_lead, key + ":lead", [&] { return "hunk " + std::to_string(n + 1) + " starts with " + std::to_string(lead) + " unchanged lines, " + std::to_string(want_lead) + " are due: " + ctx; });
    vh::Check(trail == want_trail, key + ":trail", [&] { return "hunk " + std::to_string(n + 1) + " ends with " + std::to_string(trail) + " unchanged lines, " + std::to_string(want_trail) + " are due: " + ctx; });
    prev_end = end;
  }
}

void OnePair(vh::Rng& r, const ref::Pair& p, bool with_patch) {
  const ref::Lines lhs = ref::Split(p.lhs);
  const ref::Lines rhs = ref::Split(p.rhs);
  for (int a = 0; a < 3; ++a) {
    for (int f = 0; f < 3; ++f) {
      const std::size_t context = RandContext(r);
      const bool header = r.Chance(2, 3);
      Opt o{.algorithm = kAlgos[a], .output_format = static_cast<Opt::OutputFormat>(f), .context_size = context, .file_header_use = header ? Opt::FileHeaderUse::kBoth : Opt::FileHeaderUse::kNone};
      o.minimal = r.Coin();
      if (with_patch || r.Coin()) { o.time_format = ""; }
      const auto res = Diff::FileDiff({.data = p.lhs, .name = "dir/lhs.txt"}, {.data = p.rhs, .name = "rhs.txt"}, o);
      vh::Eval(1);
      const std::string key = std::string(kAlgoNames[a]) + ":" + kFormatNames[f];
      if (!vh::Check(res.ok(), key + ":status", [&] { return Ctx(p, a, f, context, std::string(res.status().message())); })) { continue; }
      const std::string& out = *res;
      const auto ctx = [&] { return Ctx(p, a, f, context, out); };
      if (p.lhs == p.rhs) {
        vh::Check(out.empty(), key + ":same", ctx);
        continue;
      }
      vh::Check(!out.empty(), key + ":empty", ctx);
      const ref::Script s = f == 0 ? ref::ParseUnified(out, header) : f == 1 ? ref::ParseContext(out, header) : ref::ParseNormal(out);
      if (!vh::Check(s.error.empty(), key + ":form", [&] { return s.error + ": " + ctx(); })) { continue; }
      if (header && f != 2 && o.time_format.empty()) {
        vh::Eq(key + ":header_left", s.header[0].substr(4), std::string("dir/lhs.txt"), "");
        vh::Eq(key + ":header_right", s.header[1].substr(4), std::string("rhs.txt"), "");
      }
      const ref::Applied ap = ref::Apply(lhs, s);
      if (!vh::Check(ap.error.empty(), key + ":apply", [&] { return ap.error + ": " + ctx(); })) { continue; }
      vh::Check(ap.text == p.rhs, key + ":result", [&] { return "gives " + vh::Show(ap.text.substr(0, 600)) + ": " + ctx(); });
      if (f != 2) { CheckContextLines(s, lhs.size(), context, key, ctx()); }
      vh::Count("hunks", s.hunks.size());
      vh::Count("changed_lines", ap.changes);
      if (context == 0) { vh::Count("context_zero", 1); }
      vh::Distinct(vh::HashAll(out));
      // GNU patch aborts on a deletion behind an added last line without newline (as the direct algorithm writes it),
      // and rejects context diffs without context, those of GNU diff too.
      const bool patchable = !(f == 1 && context == 0) && (p.rhs.empty() || p.rhs.ends_with('\n') || a != 1);
      if (with_patch && patchable) {
        const std::string dir = vh::E().scratch;
        std::ofstream(dir + "/l", std::ios::binary) << p.lhs;
        std::ofstream(dir + "/d", std::ios::binary) << out;
        const std::string cmd = "cd '" + dir + "' && rm -f ./o ./rej && timeout 20 patch --force --binary " + (f == 0 ? "-u" : f == 1 ? "-c" : "-n") + " -F0 -r ./rej -o ./o ./l ./d > ./log 2>&1";
        const int rc = std::system(cmd.c_str());
        std::ifstream oi(dir + "/o", std::ios::binary), li(dir + "/log", std::ios::binary);
        std::stringstream ot, lt;
        ot << oi.rdbuf();
        lt << li.rdbuf();
        vh::Check(rc == 0 && ot.str() == p.rhs, key + ":patch", [&] { return "patch: rc=" + std::to_string(rc) + " " + lt.str() + " gives " + vh::Show(ot.str().substr(0, 600)) + ": " + ctx(); });
        vh::Check(lt.str().find("offset") == std::string::npos && lt.str().find("fuzz") == std::string::npos, key + ":patch_offset", [&] { return lt.str() + ": " + ctx(); });
        vh::Count("applied_by_patch", 1);
      }
    }
  }
}

// Side by side with everything shown: the columns hold the two texts.
void SideBySide(vh::Rng& r) {
  const ref::Pair p = [&] {
    ref::Lines l, m;
    const std::size_t n = r.Below(30);
    const std::size_t longest = r.Coin() ? 8 : 40;
    for (std::size_t i = 0; i < n; ++i) { l.push_back({r.Text("abc.", 1 + r.Below(longest)), true}); }
    m = l;
    for (std::size_t e = r.Below(6); e > 0; --e) {
      const std::size_t at = r.Below(m.size() + 1);
      if (r.Coin() && at < m.size()) {
        m.erase(m.begin() + static_cast<std::ptrdiff_t>(at));
      } else {
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), {r.Text("abc.", 1 + r.Below(longest)), true});
      }
    }
    ref::Pair q{ref::Join(l), ref::Join(m)};
    if (r.Chance(1, 4) && !q.lhs.empty()) { q.lhs.pop_back(); }
    if (r.Chance(1, 4) && !q.rhs.empty()) { q.rhs.pop_back(); }
    return q;
  }();
  const int a = static_cast<int>(r.Below(3));
  const std::size_t width = r.Of<std::size_t>({0, 1, 3, 4, 5, 6, 7, 10, 20, 21, 40, 130, 200});
  const std::size_t col = width > 4 ? (width - 3) / 2 : 1;
  const std::size_t full = 2 * col + 3;  // of a row; cells are cut at the column
  const auto cut = [&](const std::string& text) {
    ref::Lines c = ref::Split(text);
    for (auto& line : c) { line.text.resize(std::min(line.text.size(), col)); }
    return ref::Join(c);
  };
  Opt o{.algorithm = kAlgos[a], .output_format = Opt::OutputFormat::kSideBySide, .context_size = std::numeric_limits<std::size_t>::max() / 2, .side_by_side_width = width};
  const auto res = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, o);
  vh::Eval(1);
  const std::string key = std::string("side:") + kAlgoNames[a];
  if (!vh::Check(res.ok(), key + ":status", [&] { return std::string(res.status().message()); })) { return; }
  const auto ctx = [&] { return std::string(kAlgoNames[a]) + " width=" + std::to_string(width) + " lhs=" + vh::Show(p.lhs) + " rhs=" + vh::Show(p.rhs) + " out=" + vh::Show(*res); };
  if (p.lhs == p.rhs) {
    vh::Check(res->empty(), key + ":same", ctx);
    return;
  }
  ref::Reader rd(*res);
  vh::Check(!rd.unterminated && !res->empty(), key + ":form", ctx);
  ref::Lines l, m;
  while (!rd.Done()) {
    std::string row = rd.Next();
    row.resize(std::max(row.size(), full), ' ');
    const char mark = row[col + 1];
    vh::Check(row[col] == ' ' && row[col + 2] == ' ' && row.size() <= full && std::string_view(" |<>").find(mark) != std::string_view::npos, key + ":gutter", [&] { return vh::Show(row) + ": " + ctx(); });
    const auto trim = [](std::string s) {
      while (!s.empty() && s.back() == ' ') { s.pop_back(); }
      return s;
    };
    const std::string lt = trim(row.substr(0, col)), rt = trim(row.substr(col + 3));
    if (mark != '>') { l.push_back({lt, true}); }
    if (mark != '<') { m.push_back({rt, true}); }
    if (mark == ' ') { vh::Check(lt == rt, key + ":common", ctx); }
    if (mark == '<') { vh::Check(rt.empty(), key + ":left_only", ctx); }
    if (mark == '>') { vh::Check(lt.empty(), key + ":right_only", ctx); }
    int here = 0;
    while (rd.Marker()) { ++here; }
    const bool l_last = mark != '>' && !p.lhs.ends_with('\n') && l.size() == ref::Split(p.lhs).size();
    const bool r_last = mark != '<' && !p.rhs.ends_with('\n') && m.size() == ref::Split(p.rhs).size();
    const int want = mark == ' ' ? (l_last && r_last ? 1 : 0) : (l_last ? 1 : 0) + (r_last ? 1 : 0);
    vh::Check(here == want, key + ":no_newline", [&] { return std::to_string(here) + " markers behind " + vh::Show(row) + ", " + std::to_string(want) + " are due: " + ctx(); });
    if (l_last) { l.back().nl = false; }
    if (r_last) { m.back().nl = false; }
  }
  vh::Check(ref::Join(l) == cut(p.lhs), key + ":left", ctx);
  vh::Check(ref::Join(m) == cut(p.rhs), key + ":right", ctx);
  vh::Count("side_by_side", 1);
}
}  // namespace

void VhMain() {
  vh::Section("apply", 9000, 200000, [](vh::Rng& r, std::uint64_t i) { OnePair(r, ref::RandPair(r, i % 10 == 0 ? 80 : 14), false); });
  vh::Section("large", 40, 600, [](vh::Rng& r, std::uint64_t) { OnePair(r, ref::RandPair(r, 900), false); });
  // More lines, all different, than fit a byte or two; a few edits and a replaced block of any size.
  vh::Section("huge", 3, 40, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = i % 3 == 0 ? 66000 + r.Below(4000) : 300 + r.Below(12000);
    std::string lhs, rhs;
    const std::size_t from = r.Below(n), to = std::min(n, from + r.Below(5) * r.Below(1300));
    for (std::size_t k = 0; k < n; ++k) {
      const std::string line = "line " + std::to_string(k) + "\n";
      lhs += line;
      if (k >= from && k < to) {
        if (!r.Chance(1, 5)) { rhs += "other " + std::to_string(k) + "\n"; }
      } else if (r.Chance(1, 2000)) {
        if (r.Coin()) { rhs += "new " + std::to_string(k) + "\n"; } else { rhs += "line " + std::to_string((k + 4096) % n) + "\n" + line; }
      } else {
        rhs += line;
      }
    }
    OnePair(r, {lhs, rhs}, false);
  });
  vh::Section("patch", 150, 2000, [](vh::Rng& r, std::uint64_t) { OnePair(r, ref::RandPair(r, 16, false), true); });
  vh::Section("side", 10000, 100000, [](vh::Rng& r, std::uint64_t) { SideBySide(r); });
}
