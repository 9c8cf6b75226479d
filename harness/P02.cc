// VH-SRC: mbo/diff/diff.cc
// VH-SRC: mbo/diff/base_diff.cc
// VH-SRC: mbo/diff/chunked_diff.cc
// VH-SRC: mbo/diff/diff_options.cc
// VH-SRC: mbo/diff/impl/diff_direct.cc
// VH-SRC: mbo/diff/impl/diff_myers.cc
// VH-SRC: mbo/diff/impl/diff_naive.cc
// VH-SRC: mbo/diff/internal/chunk.cc
// VH-SRC: mbo/diff/internal/data.cc
// VH-SRC: mbo/diff/internal/output.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/strings/strip.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random texts and perturbed copies (case, blanks, tabs, blank lines, comments, numbers, final newlines, real edits) x every combination of the ignore options x algorithms x context sizes: every line is mapped to its class under the documented equivalence by an independent normaliser, the two texts of class names are compared by the plain diff (judged by P01 and P03), and the result with the hunks of only blank or only matching lines removed must be what the diff with the options shows, hunk by hunk and line by line; the other formats must be empty exactly when it is
// VH-ASSUME: the regular expression stand-in matches correctly; comment stripping itself is judged by S05
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/diff/diff.h"
#include "mbo/strings/strip.h"
#include "ref_diff.h"
#include "re2/re2.h"
#include "vh.h"

namespace {
using mbo::diff::Diff;
using Opt = mbo::diff::DiffOptions;
const char* const kAlgoNames[] = {"naive", "direct", "myers"};

struct Cfg {
  bool blank = false, icase = false, chunks = true, all = false, consec = false, trail = false, nofinal = false;
  std::string match;  // regular expression, empty: none
  int comments = 0;   // 1: simple, 2: parsed
  std::string cstart;
  std::string rl, rr, repl;  // regular expressions for the two sides
  std::string Show() const {
    std::string s;
    if (blank) { s += "blank_lines "; }
    if (icase) { s += "case "; }
    if (!match.empty()) { s += "matching(" + match + ")" + (chunks ? "" : " by line") + " "; }
    if (all) { s += "all_space "; }
    if (consec) { s += "consecutive_space "; }
    if (trail) { s += "trailing_space "; }
    if (nofinal) { s += "missing_final_newline "; }
    if (comments != 0) { s += (comments == 1 ? "comments(" : "parsed_comments(") + cstart + ") "; }
    if (!rl.empty()) { s += "replace_lhs(" + rl + "->" + repl + ") "; }
    if (!rr.empty()) { s += "replace_rhs(" + rr + "->" + repl + ") "; }
    return s;
  }
  // DiffOptions cannot be moved or copied.
  std::unique_ptr<Opt> Options(int algo, std::size_t context, int fmt) const {
    auto ptr = std::unique_ptr<Opt>(new Opt{.algorithm = static_cast<Opt::Algorithm>(algo), .output_format = static_cast<Opt::OutputFormat>(fmt), .context_size = context, .file_header_use = Opt::FileHeaderUse::kNone});
    Opt& o = *ptr;
    o.ignore_blank_lines = blank;
    o.ignore_case = icase;
    o.ignore_matching_chunks = chunks;
    o.ignore_all_space = all;
    o.ignore_consecutive_space = consec;
    o.ignore_trailing_space = trail;
    o.ignore_missing_final_newline = nofinal;
    if (!match.empty()) { o.ignore_matching_lines.emplace(match); }
    if (comments == 1) { o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = cstart}; }
    if (comments == 2) { o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = cstart, .remove_quotes = false}}; }
    if (!rl.empty()) { o.regex_replace_lhs.emplace(Opt::RegexReplace{.regex = std::make_unique<RE2>(rl), .replace = repl}); }
    if (!rr.empty()) { o.regex_replace_rhs.emplace(Opt::RegexReplace{.regex = std::make_unique<RE2>(rr), .replace = repl}); }
    return ptr;
  }
};
bool Ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
bool Blank(std::string_view s) { return std::all_of(s.begin(), s.end(), Ws); }
std::string Norm(const Cfg& c, std::string_view line, const std::string& regex) {
  std::string s;
  if (c.all) {
    for (const char x : line) {
      if (!Ws(x)) { s += x; }
    }
  } else if (c.consec) {
    bool gap = false;
    for (const char x : line) {
      if (Ws(x)) {
        gap = true;
        continue;
      }
      if (gap && !s.empty()) { s += ' '; }
      gap = false;
      s += x;
    }
  } else {
    s = line;
    if (c.trail) {
      while (!s.empty() && Ws(s.back())) { s.pop_back(); }
    }
  }
  if (c.comments == 1) {
    s = std::string(mbo::strings::StripLineComments(s, {.comment_start = c.cstart}));
  } else if (c.comments == 2) {
    auto r = mbo::strings::StripParsedLineComments(s, {.parse = {.stop_at_str = c.cstart, .remove_quotes = false}});
    if (r.ok()) { s = *r; }
  }
  if (!regex.empty()) { RE2::Replace(&s, RE2(regex), c.repl); }
  return s;
}
std::string Fold(std::string s) {
  for (char& x : s) {
    if (x >= 'A' && x <= 'Z') { x = static_cast<char>(x - 'A' + 'a'); }
  }
  return s;
}

std::string Line(vh::Rng& r) {
  static const char* kOdd[] = {"", "", " ", "\t", "a", "A", "b", "foo", "Foo", "FOO 1", "FOO 2", "a b", "a  b", "a\tb", " a b", "a b ", "ab", "x # c", "x # d", "x // c", "# only", "  // only", "'#' y # z", "\"a # b\"", "n 1", "n 22", "time: 12", "\\# e", "'", "x\r", "\v", "\xC3\xA9", "\xC3\x89"};
  return r.Chance(3, 4) ? std::string(r.Pick(kOdd)) : r.Text("aA b\t#/'1", r.Below(10));
}
std::string Perturb(vh::Rng& r, std::string s) {
  switch (r.Below(8)) {
    case 0:
      for (char& x : s) {
        if (r.Coin() && ((x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'))) { x ^= 0x20; }
      }
      return s;
    case 1: return s + r.Of<const char*>({" ", "\t", "  ", "\r", " \v\f"});
    case 2: return r.Of<const char*>({" ", "\t", "  "}) + s;
    case 3: {
      const std::size_t p = r.Below(s.size() + 1);
      return s.substr(0, p) + r.Of<const char*>({" ", "\t", "  ", "\v", "\f", "\r", " \v "}) + s.substr(p);
    }
    case 4:
      for (char& x : s) {
        if (Ws(x)) { x = r.Of<char>({' ', '\t', '\v', '\f'}); }
      }
      return s;
    case 5: return s + r.Of<const char*>({"# k", " # kk", "// m", "  // mm"});
    case 6:
      for (char& x : s) {
        if (x >= '0' && x <= '9') { x = static_cast<char>('0' + r.Below(10)); }
      }
      return s;
    default: return Line(r);
  }
}
ref::Pair Texts(vh::Rng& r) {
  ref::Lines a, b;
  const std::size_t n = r.Chance(1, 5) ? r.Below(3) : r.Below(14);
  const std::size_t rate = 1 + r.Below(8);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string l = Line(r);
    a.push_back({l, true});
    if (r.Below(8) < rate) {
      switch (r.Below(8)) {
        case 0: b.push_back({r.Of<const char*>({"", " ", "FOO 3"}), true}); [[fallthrough]];
        case 1: b.push_back({l, true}); break;
        case 2: break;
        default: b.push_back({Perturb(r, l), true});
      }
    } else {
      b.push_back({l, true});
    }
  }
  if (r.Chance(1, 4)) { b.push_back({r.Of<const char*>({"", " ", "\t", "FOO 9", "# x"}), true}); }
  ref::Pair p{ref::Join(a), ref::Join(b)};
  if (r.Chance(1, 3) && !p.lhs.empty()) { p.lhs.pop_back(); }
  if (r.Chance(1, 3) && !p.rhs.empty()) { p.rhs.pop_back(); }
  if (r.Coin()) { std::swap(p.lhs, p.rhs); }
  return p;
}
Cfg Config(vh::Rng& r) {
  Cfg c;
  const auto on = [&] { return r.Chance(1, 4); };
  c.blank = on();
  c.icase = on();
  c.all = on();
  c.consec = on();
  c.trail = on();
  c.nofinal = on();
  if (on()) {
    c.match = r.Of<const char*>({"FOO", "^FOO [0-9]$", "(?i)^foo", "^$", "[0-9]", "^ *#", "time", "b$"});
    c.chunks = r.Coin();
  }
  if (on()) {
    c.comments = 1 + static_cast<int>(r.Below(2));
    c.cstart = r.Of<const char*>({"#", "//"});
  }
  if (on()) {
    c.repl = r.Of<const char*>({"", "X", "<\\0>", "a"});
    const char* re[] = {"[0-9]+", "FOO", "^ +", "[a-z]+$", "#.*", "b"};
    if (r.Coin()) {
      c.rl = c.rr = r.Pick(re);
    } else if (r.Coin()) {
      c.rl = r.Pick(re);
    } else {
      c.rr = r.Pick(re);
    }
  }
  return c;
}

void One(vh::Rng& r, const ref::Pair& p, const Cfg& c) {
  const ref::Lines lhs = ref::Split(p.lhs), rhs = ref::Split(p.rhs);
  std::map<std::string, std::size_t> ids;
  bool judged = true, mixed = false;
  std::set<std::string> in, out;
  const RE2 match(c.match.empty() ? "x" : c.match);
  const auto classes = [&](const ref::Lines& v, const std::string& regex) {
    ref::Lines res;
    for (const ref::Line& l : v) {
      const std::string n = Norm(c, l.text, regex);
      const bool m = !c.match.empty() && RE2::PartialMatch(n, match);
      if (!c.match.empty() && c.chunks && m != RE2::PartialMatch(l.text, match)) { judged = false; }  // match before or behind the other options: not specified
      if (c.blank && Blank(n) != Blank(l.text)) { judged = false; }
      const std::string key = m ? "match" : "=" + (c.icase ? Fold(n) : n);
      if (c.icase && !c.match.empty()) { (m ? in : out).insert(Fold(n)); }
      const std::size_t id = ids.emplace(key, ids.size()).first->second;
      res.push_back({"t" + std::to_string(id), l.nl || c.nofinal || m});
    }
    return res;
  };
  const std::string ct = ref::Join(classes(lhs, c.rl));
  const std::string dt = ref::Join(classes(rhs, c.rr));
  for (const std::string& s : in) { mixed = mixed || out.contains(s); }
  for (int algo = 0; algo < 3; ++algo) {
    if (!judged || (mixed && algo != 2)) {
      vh::Count("not_judged", 1);
      continue;
    }
    const std::size_t context = r.Below(4);
    const auto o = c.Options(algo, context, 0);
    const Opt plain{.algorithm = static_cast<Opt::Algorithm>(algo), .context_size = context, .file_header_use = Opt::FileHeaderUse::kNone};
    const auto got = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, *o);
    const auto base = Diff::FileDiff({.data = ct, .name = "l"}, {.data = dt, .name = "r"}, plain);
    vh::Eval(1);
    const std::string key = kAlgoNames[algo];
    const auto ctx = [&] { return key + " context=" + std::to_string(context) + " options: " + c.Show() + "lhs=" + vh::Show(p.lhs) + " rhs=" + vh::Show(p.rhs) + " diff=" + vh::Show(got.ok() ? *got : std::string(got.status().message())); };
    if (!vh::Check(got.ok() && base.ok(), key + ":status", ctx)) { continue; }
    ref::Script want = ref::ParseUnified(*base, false);
    const ref::Script have = ref::ParseUnified(*got, false);
    if (!want.error.empty() || !ref::Apply(ref::Split(ct), want).error.empty()) { continue; }  // judged by P01
    std::vector<ref::Hunk> keep;
    for (ref::Hunk& h : want.hunks) {
      std::size_t l = h.l, m = h.r;
      bool blank = true, matching = true;
      for (ref::Op& op : h.ops) {
        const ref::Line& orig = op.kind == '+' ? rhs.at(m) : lhs.at(l);
        op.line = {orig.text, orig.nl || c.nofinal};
        l += op.kind != '+' ? 1 : 0;
        m += op.kind != '-' ? 1 : 0;
        if (op.kind != ' ') {
          blank = blank && Blank(orig.text);
          matching = matching && !c.match.empty() && RE2::PartialMatch(orig.text, match);
        }
      }
      if ((c.blank && blank) || (c.chunks && !c.match.empty() && matching)) {
        vh::Count("ignored_hunks", 1);
        continue;
      }
      keep.push_back(h);
    }
    if (p.lhs == p.rhs) { keep.clear(); }
    vh::Count(keep.empty() ? (p.lhs == p.rhs ? "identical" : "equal_under_the_options") : "different", 1);
    if (!vh::Check(keep.empty() == got->empty(), key + (keep.empty() ? ":not_empty" : ":empty"), ctx)) { continue; }
    if (!vh::Check(have.error.empty(), key + ":form", [&] { return have.error + ": " + ctx(); })) { continue; }
    const auto text = [](const std::vector<ref::Hunk>& v) {
      std::string s;
      for (const ref::Hunk& h : v) {
        s += "@" + std::to_string(h.l) + "," + std::to_string(h.ln) + " " + std::to_string(h.r) + "," + std::to_string(h.rn) + "\n";
        for (const ref::Op& op : h.ops) { s += std::string(1, op.kind) + op.line.text + (op.line.nl ? "\n" : "<no newline>\n"); }
      }
      return s;
    };
    const std::string wt = text(keep);
    vh::Check(text(have.hunks) == wt, key + ":hunks", [&] { return "due: " + vh::Show(wt) + " " + ctx(); });
    const int fmt = 1 + static_cast<int>(r.Below(3));
    const auto other = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, *c.Options(algo, context, fmt));
    vh::Check(other.ok() && other->empty() == got->empty(), key + ":other_format", [&] { return "format " + std::to_string(fmt) + ": " + ctx(); });
    const auto skip = c.Options(algo, context, 0);
    if (!c.blank && (c.match.empty() || !c.chunks)) {
      skip->skip_left_deletions = true;
      const auto sk = Diff::FileDiff({.data = p.lhs, .name = "l"}, {.data = p.rhs, .name = "r"}, *skip);
      bool adds = false;
      for (const ref::Hunk& h : keep) {
        for (const ref::Op& op : h.ops) { adds = adds || op.kind == '+'; }
      }
      vh::Check(sk.ok() && sk->empty() == !adds, key + ":skip_left_deletions", [&] { return "gives " + vh::Show(sk.ok() ? *sk : "error") + ": " + ctx(); });
    }
    vh::Distinct(vh::HashAll(p.lhs, p.rhs, c.Show()));
  }
}
}  // namespace

void VhMain() {
  vh::Section("options", 20000, 400000, [](vh::Rng& r, std::uint64_t) {
    const ref::Pair p = Texts(r);
    One(r, p, Config(r));
  });
  vh::Section("single", 12000, 200000, [](vh::Rng& r, std::uint64_t i) {
    Cfg c;
    switch (i % 12) {
      case 0: c.blank = true; break;
      case 1: c.icase = true; break;
      case 2: c.all = true; break;
      case 3: c.consec = true; break;
      case 4: c.trail = true; break;
      case 5: c.nofinal = true; break;
      case 6: c.match = "FOO"; break;
      case 7:
        c.match = "FOO";
        c.chunks = false;
        break;
      case 8:
        c.comments = 1;
        c.cstart = "#";
        break;
      case 9:
        c.comments = 2;
        c.cstart = "#";
        break;
      case 10:
        c.rl = c.rr = "[0-9]+";
        c.repl = "N";
        break;
      default: break;
    }
    One(r, Texts(r), c);
  });
}
