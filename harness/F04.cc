// VH-SRC: mbo/file/glob.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: every pattern up to five characters over the special characters and random longer ones under all combinations of the pattern options, against paths instantiated from the pattern, mutated and random; decided by a backtracking matcher over the documented wildcard definition and, where the definitions coincide, by the C library's fnmatch; every special character is also checked by itself against every character
// VH-ASSUME: the regular expression engine (a PCRE2 based stand-in for RE2, see DESIGN.md) matches regular expressions correctly
#include <fnmatch.h>

#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/file/glob.h"
#include "re2/re2.h"
#include "ref_glob.h"
#include "vh.h"

namespace {
using namespace ref_glob;
using mbo::file::Glob2Re2Options;
using mbo::file::file_internal::Glob2Re2;

// ---- Checks --------------------------------------------------------------------------------------------------------
Glob2Re2Options LibOptions(const Opt& o) {
  Glob2Re2Options r{.allow_star_star = o.star_star, .allow_ranges = o.ranges};
  r.re2_options.set_log_errors(false);
  if (o.latin1) { r.re2_options.set_encoding(re2::RE2::Options::EncodingLatin1); }
  if (o.nocase) { r.re2_options.set_case_sensitive(false); }
  return r;
}
std::string Desc(const Opt& o) {
  return std::string(o.star_star ? "" : " no**") + (o.ranges ? "" : " no[]") + (o.latin1 ? " latin1" : "") + (o.nocase ? " nocase" : "");
}
// The same definition as fnmatch's?
bool LikeFnmatch(std::string_view p, const Opt& o) {
  if (!o.ranges || o.nocase || p.find("**") != p.npos || p.find("//") != p.npos || p.find("[^") != p.npos || p.find("[!^") != p.npos) { return false; }
  if (p.find("[/") != p.npos || (p.size() > 1 && p.back() == '/') || p.find("/\\/") != p.npos || p.find("\\//") != p.npos || p.find('/') != p.npos) { return false; }
  return std::all_of(p.begin(), p.end(), [](char c) { return c > 0; });
}
struct Pattern {
  Pattern(std::string_view pattern, const Opt& opt) : text(pattern), o(opt), ref(Parse(text, o)) {
    auto got = Glob2Re2(text, LibOptions(o));
    vh::Eval();
    if (!ref.judged) { vh::Count("unjudged_patterns"); }
    if (ref.judged) { vh::Check(got.ok() == ref.ok, ref.ok ? "parse.rejected" : "parse.accepted_ill_formed", [&] { return "pattern " + vh::Show(text) + Desc(o) + (got.ok() ? " -> " + (*got)->pattern() : std::string(" -> ") + std::string(got.status().message())); }); }
    if (!got.ok()) {
      vh::Count("rejected_patterns");
      vh::Check(got.status().code() == absl::StatusCode::kInvalidArgument, "parse.code", [&] { return "pattern " + vh::Show(text) + " status " + std::string(got.status().message()); });
    } else {
      vh::Count("patterns");
      re = *std::move(got);
    }
  }
  void Match(std::string_view path) const {
    if (re == nullptr || !ref.judged || !ref.ok) { return; }
    const bool got = re2::RE2::FullMatch(path, *re);
    vh::Eval();
    const Str s = Decode(path, o.latin1);
    const bool want = Matches(ref.toks, s, o.nocase, false);
    if (ref.has_set && want != Matches(ref.toks, s, o.nocase, true)) { vh::Count("range_meets_separator"); return; }
    vh::Count(want ? "matches" : "mismatches");
    vh::Check(got == want, want ? "match.missed" : "match.wrong", [&] { return "pattern " + vh::Show(text) + Desc(o) + " path " + vh::Show(path) + " regex " + re->pattern(); });
    if (LikeFnmatch(text, o) && path.find('\0') == path.npos && text.find('\0') == text.npos && std::all_of(path.begin(), path.end(), [](char c) { return c > 0; })) {
      vh::Count("compared_with_fnmatch");
      vh::Check(got == (fnmatch(text.c_str(), std::string(path).c_str(), FNM_PATHNAME) == 0), "match.fnmatch", [&] { return "pattern " + vh::Show(text) + " path " + vh::Show(path) + " regex " + re->pattern() + (got ? " matches" : " does not match"); });
    }
  }
  std::string text;
  Opt o;
  Parsed ref;
  std::unique_ptr<const re2::RE2> re;
};
Opt RandomOpt(vh::Rng& r) { return {.star_star = !r.Chance(1, 5), .ranges = !r.Chance(1, 6), .latin1 = r.Chance(1, 5), .nocase = r.Chance(1, 6)}; }
void Some(vh::Rng& r, const Pattern& p) {
  if (!p.ref.ok) { return; }
  for (int k = 0; k < 6; ++k) {
    Str s = Instance(r, p.ref.toks, p.o);
    p.Match(Enc(s, p.o.latin1));
    if (!s.empty()) {
      const std::size_t at = r.Below(s.size());
      switch (r.Below(4)) {
        case 0: s.erase(s.begin() + static_cast<std::ptrdiff_t>(at)); break;
        case 1: s.insert(s.begin() + static_cast<std::ptrdiff_t>(at), r.Coin() ? U'/' : AnyChar(r, p.o)); break;
        case 2: s[at] = AnyChar(r, p.o); break;
        default: s.push_back(r.Coin() ? U'/' : AnyChar(r, p.o)); break;
      }
      p.Match(Enc(s, p.o.latin1));
    }
  }
  Str s;
  const std::size_t n = r.Below(6);
  for (std::size_t i = 0; i < n; ++i) { s.push_back(AnyChar(r, p.o)); }
  p.Match(Enc(s, p.o.latin1));
}
}  // namespace

void VhMain() {
    // Every character as a pattern, escaped, in a range and in a negative range, against every character.
    vh::Section("single_characters", 256, 256, [](vh::Rng&, std::uint64_t c) {
      for (const bool latin1 : {false, true}) {
        for (const bool ranges : {true, false}) {
          const Opt o{.ranges = ranges, .latin1 = latin1};
          if (latin1 || c < 128) {
            const std::string ch = Encode(static_cast<char32_t>(c), latin1);
            for (const std::string& pat : {ch, "\\" + ch, "x" + ch + "y", "x\\" + ch + "y", "[" + ch + "x]", "[!" + ch + "x]", "[x" + ch + "]", "[x\\" + ch + "]", "[!\\" + ch + "]", "[[:digit:]" + ch + "]", "[" + ch + "[:digit:]]"}) {
              const Pattern p(pat, o);
              for (int d = 0; d < (latin1 ? 256 : 128); ++d) {
                const std::string dh = Encode(static_cast<char32_t>(d), latin1);
                p.Match(pat[0] == 'x' ? "x" + dh + "y" : dh);
              }
              p.Match("");
              p.Match(pat);
              p.Match("5");
              p.Match("xy");
            }
          }
        }
      }
    });
    // "the sequence '**/**' will not enforce a directory level"
    vh::Once("star_star_twice", [](vh::Rng&) {
      const auto re = Glob2Re2("**/**", {});
      vh::Check(re.ok() && re2::RE2::FullMatch("a", **re), "leading_star_star_twice", "pattern \"**/**\" does not match \"a\"");
      vh::Eval();
    });
    // Text that means something to a regular expression means nothing to a pattern.
    vh::Section("regex_lookalikes", 40, 2000, [](vh::Rng& r, std::uint64_t) {
      static constexpr std::string_view kBits[] = {"{2}", "{0}", "{1,3}", "{,2}", "{1,}", "{", "}", "(", ")", "(a)", "(?i)", "(?:a)", "(?=a)", "(?s)", "|", "a|b", "+", "++", "^", "$", ".", ".*", ".+", "\\\\d", "\\\\E", "\\\\Q", "#", " ", "&&", "~", "-", ",", "]", "}{", "(*ACCEPT)", "(?#c)"};
      static constexpr std::string_view kPlain[] = {"a", "b", "ab", "1", "*", "?", "[ab]", "[!a]", "/", "**/"};
      for (int k = 0; k < 60; ++k) {
        std::string pat;
        const std::size_t n = 1 + r.Below(4);
        for (std::size_t i = 0; i < n; ++i) {
          pat += r.Pick(kPlain);
          pat += r.Pick(kBits);
        }
        if (r.Coin()) { pat += r.Pick(kPlain); }
        const Opt o = RandomOpt(r);
        const Pattern p(pat, o);
        vh::Distinct(vh::HashAll(pat, o.star_star, o.ranges, o.latin1, o.nocase));
        Some(r, p);
        for (const std::string_view path : {"", "a", "aa", "aaa", "b", "ab", "abab", "1", "11", "A", "a1"}) { p.Match(path); }
      }
    });
    // All short patterns.
    vh::Section("short_patterns", 16, 64, [](vh::Rng& r, std::uint64_t i) {
      static constexpr std::string_view kChars = "a*/?[]!\\-:^.$";
      const std::size_t n = kChars.size();
      const std::size_t max = vh::Thorough() ? 5 : 4;
      std::size_t total = 1;
      for (std::size_t k = 0; k < max; ++k) { total = total * n + 1; }
      const std::size_t step = vh::Thorough() ? 64 : 16;
      for (std::size_t id = i; id < total; id += step) {
        std::string pat;
        for (std::size_t v = id; v > 0; v = (v - 1) / n) { pat += kChars[(v - 1) % n]; }
        const Opt o{.star_star = !r.Chance(1, 6), .ranges = !r.Chance(1, 6)};
        const Pattern p(pat, o);
        for (const std::string_view path : {"", "a", "/", "aa", "a/a", "/a", "a/", ":", "/a/a", "[", "!", "a.a", "-", "^", "$"}) { p.Match(path); }
        p.Match(pat);
      }
      vh::Case("all patterns of up to " + std::to_string(max) + " special characters");
    });
    vh::Section("random_patterns", 60, 3000, [](vh::Rng& r, std::uint64_t) {
      for (int k = 0; k < 300; ++k) {
        const Opt o = RandomOpt(r);
        const Pattern p(RandomPattern(r, o), o);
        vh::Distinct(vh::HashAll(p.text, o.star_star, o.ranges, o.latin1, o.nocase));
        if (k == 0) { vh::SampleText(p.text); }
        Some(r, p);
      }
    });
    // Arbitrary text never crashes and is either matched or rejected; splitting accepts the same patterns.
    vh::Section("arbitrary_text", 30, 1000, [](vh::Rng& r, std::uint64_t) {
      for (int k = 0; k < 300; ++k) {
        const Opt o = RandomOpt(r);
        Str s;
        const std::size_t n = r.Len(24);
        for (std::size_t i = 0; i < n; ++i) { s.push_back(r.Coin() ? char32_t("*?[]!-\\/:^"[r.Below(10)]) : AnyChar(r, o)); }
        const Pattern p(Enc(s, o.latin1), o);
        Some(r, p);
        const auto parts = mbo::file::file_internal::GlobSplitParts(p.text, LibOptions(o));
        const auto split = mbo::file::GlobSplit(std::string_view(p.text), LibOptions(o));
        vh::Check(parts.ok() == split.ok(), "split.differs", [&] { return "pattern " + vh::Show(p.text) + Desc(o); });
        if (p.re != nullptr) { vh::Check(parts.ok() && split.ok(), "split.rejected", [&] { return "pattern " + vh::Show(p.text) + Desc(o) + " regex " + p.re->pattern(); }); }
      }
    });
    // The path and file parts together make the pattern.
    vh::Section("split_parts", 30, 1000, [](vh::Rng& r, std::uint64_t) {
      for (int k = 0; k < 200; ++k) {
        const Opt o = RandomOpt(r);
        const Pattern p(RandomPattern(r, o), o);
        const auto parts = mbo::file::file_internal::GlobSplitParts(p.text, LibOptions(o));
        if (p.re == nullptr || !parts.ok() || !p.ref.judged || !p.ref.ok) { continue; }
        const bool both = !parts->file_pattern.empty() && !parts->path_pattern.empty();
        std::string whole = parts->path_pattern + (both ? "/" : "") + parts->file_pattern;
        if (!parts->mixed && !parts->file_pattern.empty() && parts->path_pattern.empty() && !p.ref.toks.empty() && p.ref.toks[0].kind == kSlash) { whole = "/" + whole; }
        const Pattern w(whole, o);
        if (w.re == nullptr || !w.ref.judged) { vh::Check(false, "parts.invalid", [&] { return "pattern " + vh::Show(p.text) + Desc(o) + " parts " + vh::Show(parts->path_pattern) + " and " + vh::Show(parts->file_pattern); }); continue; }
        vh::Count(parts->mixed ? "mixed" : "parted");
        for (int i = 0; i < 6; ++i) {
          const std::string path = Enc(Instance(r, i % 2 == 0 ? p.ref.toks : w.ref.toks, o), o.latin1);
          vh::Eval();
          vh::Check(re2::RE2::FullMatch(path, *p.re) == re2::RE2::FullMatch(path, *w.re), "parts.differ", [&] { return "pattern " + vh::Show(p.text) + Desc(o) + " parts " + vh::Show(parts->path_pattern) + " and " + vh::Show(parts->file_pattern) + " path " + vh::Show(path); });
        }
      }
    });
}
