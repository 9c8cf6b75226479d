// VH-SRC: mbo/diff/diff.cc
// VH-SRC: mbo/diff/base_diff.cc
// VH-SRC: mbo/diff/chunked_diff.cc
// VH-SRC: mbo/diff/diff_options.cc
// VH-SRC: mbo/diff/impl/diff_direct.cc
// VH-SRC: mbo/diff/impl/diff_myers.cc
// VH-SRC: mbo/diff/impl/diff_naive.cc
// VH-SRC: mbo/diff/internal/chunk.cc
// VH-SRC: mbo/diff/internal/data.cc
// VH-SRC: mbo/diff/internal/output.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/strings/strip.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: pairs of random texts (few and many distinct lines, edited copies with moved blocks, unrelated texts, up to several thousand lines, adversarial periodic and reversed sequences); the script of each algorithm is read back and applied strictly; its length is compared with a longest common subsequence computed by dynamic programming (minimal mode: equal; without: equal for up to 64 changed lines, never shorter); direct compares line by line exactly
// VH-ASSUME: the textbook dynamic program for the longest common subsequence is right
#include <algorithm>
#include <map>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/diff/diff.h"
#include "ref_diff.h"
#include "vh.h"

namespace {
using mbo::diff::Diff;
using Opt = mbo::diff::DiffOptions;
const char* const kAlgoNames[] = {"naive", "direct", "myers"};

void One(vh::Rng& r, const ref::Pair& p, bool naive) {
  const ref::Lines lhs = ref::Split(p.lhs), rhs = ref::Split(p.rhs);
  std::map<std::pair<std::string, bool>, std::size_t> ids;
  std::vector<std::size_t> a, b;
  for (const ref::Line& l : lhs) { a.push_back(ids.emplace(std::make_pair(l.text, l.nl), ids.size()).first->second); }
  for (const ref::Line& l : rhs) { b.push_back(ids.emplace(std::make_pair(l.text, l.nl), ids.size()).first->second); }
  const std::size_t best = a.size() + b.size() - 2 * ref::Lcs(a, b);
  const auto run = [&](int algo, bool minimal) -> std::optional<std::size_t> {
    const std::size_t context = r.Below(4);
    Opt o{.algorithm = static_cast<Opt::Algorithm>(algo), .context_size = context, .file_header_use = Opt::FileHeaderUse::kNone};
    o.minimal = minimal;
    const auto res = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, o);
    vh::Eval(1);
    const std::string key = std::string(kAlgoNames[algo]) + (minimal ? ":minimal" : "");
    const auto ctx = [&] { return "lhs=" + vh::Show(p.lhs.substr(0, 800)) + " rhs=" + vh::Show(p.rhs.substr(0, 800)) + " diff=" + vh::Show(res.ok() ? res->substr(0, 1200) : std::string(res.status().message())); };
    if (!vh::Check(res.ok(), key + ":status", ctx)) { return std::nullopt; }
    const ref::Script s = ref::ParseUnified(*res, false);
    if (!vh::Check(s.error.empty(), key + ":form", [&] { return s.error + ": " + ctx(); })) { return std::nullopt; }
    const ref::Applied ap = ref::Apply(lhs, s);
    if (!vh::Check(ap.error.empty(), key + ":invalid", [&] { return ap.error + ": " + ctx(); })) { return std::nullopt; }
    vh::Check(ap.text == p.rhs, key + ":result", ctx);
    vh::Check(ap.changes >= best, key + ":too_short", [&] { return std::to_string(ap.changes) + " changed lines, at least " + std::to_string(best) + " are needed: " + ctx(); });
    vh::Distinct(vh::HashAll(*res));
    if (algo == 2 && (minimal || best <= 64)) {
      vh::Check(ap.changes == best, key + ":not_shortest", [&] { return std::to_string(ap.changes) + " changed lines, " + std::to_string(best) + " suffice: " + ctx(); });
    }
    return ap.changes;
  };
  const auto plain = run(2, false);
  const auto minimal = run(2, true);
  if (plain && *plain > best) { vh::Count("capped_scripts_longer_than_minimal", 1); }
  if (minimal && best > 128) { vh::Count("minimal_beyond_the_cost_cap", 1); }
  if (naive) { run(0, r.Coin()); }
  if (const auto d = run(1, r.Coin())) {
    std::size_t want = 0;
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
      if (i >= a.size() || i >= b.size()) { want += 1; } else if (a[i] != b[i]) { want += 2; }
    }
    vh::Eq("direct:line_by_line", *d, want, "lhs=" + vh::Show(p.lhs.substr(0, 800)) + " rhs=" + vh::Show(p.rhs.substr(0, 800)));
  }
  vh::Count("changed_lines_needed", best);
}

std::string Seq(const std::vector<std::size_t>& v) {
  std::string s;
  for (const std::size_t x : v) { s += std::to_string(x) + "\n"; }
  return s;
}
ref::Pair Adversarial(vh::Rng& r, std::size_t n) {
  std::vector<std::size_t> a, b;
  const std::size_t la = r.Below(n + 1), lb = r.Below(n + 1);
  switch (r.Below(6)) {
    case 0: {  // few symbols
      const std::size_t k = 2 + r.Below(3);
      for (std::size_t i = 0; i < la; ++i) { a.push_back(r.Below(k)); }
      for (std::size_t i = 0; i < lb; ++i) { b.push_back(r.Below(k)); }
      break;
    }
    case 1: {  // different periods
      const std::size_t x = 1 + r.Below(7), y = 1 + r.Below(7);
      for (std::size_t i = 0; i < la; ++i) { a.push_back(i % x); }
      for (std::size_t i = 0; i < lb; ++i) { b.push_back(i % y); }
      break;
    }
    case 2:  // reversed
      for (std::size_t i = 0; i < la; ++i) {
        a.push_back(i);
        b.insert(b.begin(), i);
      }
      break;
    case 3:  // nothing in common
      for (std::size_t i = 0; i < la; ++i) { a.push_back(i); }
      for (std::size_t i = 0; i < lb; ++i) { b.push_back(1000000 + i); }
      break;
    case 4: {  // a shuffled copy
      for (std::size_t i = 0; i < la; ++i) { a.push_back(i); }
      b = a;
      r.Shuffle(b);
      break;
    }
    default: {  // every k-th line differs
      const std::size_t k = 1 + r.Below(5);
      for (std::size_t i = 0; i < la; ++i) {
        a.push_back(i % 50);
        b.push_back(i % k == 0 ? 100 + i : i % 50);
      }
    }
  }
  return {Seq(a), Seq(b)};
}
}  // namespace

void VhMain() {
  vh::Section("small", 8000, 200000, [](vh::Rng& r, std::uint64_t) { One(r, ref::RandPair(r, 12), true); });
  vh::Section("tiny_alphabet", 8000, 200000, [](vh::Rng& r, std::uint64_t) { One(r, Adversarial(r, 14), true); });
  vh::Section("medium", 150, 4000, [](vh::Rng& r, std::uint64_t) { One(r, ref::RandPair(r, 300), true); });
  vh::Section("adversarial", 150, 4000, [](vh::Rng& r, std::uint64_t) { One(r, Adversarial(r, 400), true); });
  // Shuffled lines, all different: the longest increasing subsequence tells how many can stay, whatever the size.
  vh::Section("shuffled", 3, 16, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = i % 4 == 0 ? 6500 + r.Below(1000) : 10 + r.Below(4000);
    std::vector<std::size_t> a, b, tails;
    for (std::size_t k = 0; k < n; ++k) { a.push_back(k); }
    b = a;
    r.Shuffle(b);
    for (const std::size_t x : b) {
      const auto it = std::lower_bound(tails.begin(), tails.end(), x);
      if (it == tails.end()) { tails.push_back(x); } else { *it = x; }
    }
    const ref::Pair p{Seq(a), Seq(b)};
    Opt o{.algorithm = static_cast<Opt::Algorithm>(2), .context_size = 0, .file_header_use = Opt::FileHeaderUse::kNone};
    o.minimal = true;
    vh::Case("shuffled " + std::to_string(n));
    const auto res = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, o);
    vh::Eval();
    if (!vh::Check(res.ok(), "shuffled:status", [&] { return std::string(res.status().message()); })) { return; }
    const ref::Script s = ref::ParseUnified(*res, false);
    const ref::Applied ap = ref::Apply(ref::Split(p.lhs), s);
    if (!vh::Check(s.error.empty() && ap.error.empty() && ap.text == p.rhs, "shuffled:result", [&] { return std::to_string(n) + " lines " + s.error + ap.error; })) { return; }
    vh::Eq("shuffled:minimal:changes", ap.changes, 2 * (n - tails.size()), std::to_string(n) + " shuffled lines");
    vh::Distinct(vh::HashAll(p.rhs));
    vh::Count("shuffled_lines", n);
  });
  vh::Section("large", 4, 60, [](vh::Rng& r, std::uint64_t) { One(r, r.Coin() ? Adversarial(r, 3000) : ref::RandPair(r, 3000), false); });
}
