// VH-SRC: mbo/strings/strip.cc mbo/strings/parse.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random texts over comment starts, quotes, whitespace and newlines for every kind of argument; the comment and whitespace rules written down line by line (ParseString, which S04 decides, gives the parsed lines); affixes taken from the text, perturbed, longer than it and empty; splitting at the last separator through absl::StrSplit and directly from every position
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "absl/strings/str_split.h"
#include "mbo/strings/split.h"
#include "mbo/strings/strip.h"
#include "vh.h"

namespace {
std::string TrimEnd(std::string s) {
  while (!s.empty() && std::string_view(" \t\n\v\f\r").find(s.back()) != std::string_view::npos) { s.pop_back(); }
  return s;
}
std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> r(1);
  for (const char c : t) {
    if (c == '\n') { r.emplace_back(); } else { r.back() += c; }
  }
  return r;
}
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (std::size_t i = 0; i < v.size(); ++i) { s += (i == 0 ? "" : "\n") + v[i]; }
  return s;
}
std::string RandomText(vh::Rng& r) {
  std::string s;
  const std::size_t n = r.Len(60, 8);
  while (s.size() < n) {
    s += r.Of<std::string>({"#", "//", "/", " ", "\t", "\n", "\n", "a", "bc", "'", "\"", "##", "' #'", "\" // \"", "\\#", "\\", " \r", "\v\f", std::string(1, '\0'), " \n", "\n\n"});
  }
  return s;
}
void Simple(vh::Rng& r) {
  const std::string text = RandomText(r);
  const std::string start = r.Of<std::string>({"#", "##", "//", "/", "# ", " #", "'", "a", "bc", "nowhere", "/*", std::string(1, '\0')});
  const mbo::strings::StripCommentArgs args{.comment_start = start, .strip_trailing_whitespace = r.Coin()};
  vh::Case("comments " + vh::Json(text) + " start " + vh::Json(start));
  std::vector<std::string> want = Lines(text);
  for (std::string& l : want) {
    const std::string before = l;
    for (std::size_t i = 0; i + start.size() <= l.size(); ++i) {
      if (l.compare(i, start.size(), start) == 0) {
        l.resize(i);
        if (args.strip_trailing_whitespace) { l = TrimEnd(l); }
        vh::Count("comments_stripped");
        break;
      }
    }
    const std::string_view got = mbo::strings::StripLineComments(before, args);
    vh::Check(got == l && (got.empty() || got.data() == before.data()), "line", [&] { return "StripLineComments(" + vh::Json(before) + ", " + vh::Json(start) + ") is " + vh::Json(got) + " want " + vh::Json(l); });
  }
  vh::Eq("text", mbo::strings::StripComments(text, args), Join(want), "StripComments(" + vh::Json(text) + ", " + vh::Json(start) + (args.strip_trailing_whitespace ? ", strip)" : ", keep)"));
  vh::Eval();
  vh::Distinct(vh::HashAll(text, start));
}
void Parsed(vh::Rng& r) {
  const std::string text = RandomText(r);
  mbo::strings::StripParsedCommentArgs args;
  args.strip_trailing_whitespace = r.Coin();
  args.parse.remove_quotes = r.Coin();
  args.parse.enable_single_quotes = r.Chance(3, 4);
  args.parse.enable_double_quotes = r.Chance(3, 4);
  if (r.Coin()) { args.parse.stop_at_any_of = "#"; }
  if (r.Coin()) { args.parse.stop_at_str = "//"; }
  if (r.Chance(1, 4)) { args.parse.split_at_any_of = "a"; }
  if (r.Coin()) { args.parse.custom_escapes = "#"; }
  vh::Case("parsed " + vh::Json(text));
  std::vector<std::string> want = Lines(text);
  bool ok = true;
  for (std::string& l : want) {
    const std::string before = l;
    std::string_view data = before;
    const auto p = mbo::strings::ParseString(args.parse, data);
    const auto got = mbo::strings::StripParsedLineComments(before, args);
    if (!vh::Check(p.ok() == got.ok(), "parsed_line_ok", vh::Json(before))) { return; }
    if (!p.ok()) { ok = false; vh::Count("lines_that_do_not_parse"); continue; }
    l = args.strip_trailing_whitespace ? TrimEnd(*p) : *p;
    vh::Eq("parsed_line", *got, l, "StripParsedLineComments(" + vh::Json(before) + ")");
    if (!data.empty()) { vh::Count("parsed_comments_stripped"); }
  }
  const auto got = mbo::strings::StripParsedComments(text, args);
  if (vh::Check(got.ok() == ok, "parsed_ok", vh::Json(text)) && ok) { vh::Eq("parsed_text", *got, Join(want), "StripParsedComments(" + vh::Json(text) + ")"); vh::Count("parsed_texts"); }
  vh::Eval();
  vh::Distinct(vh::HashAll(text, args.parse.stop_at_any_of, args.parse.stop_at_str));
}
void Affix(vh::Rng& r) {
  const std::string text = r.Chance(1, 8) ? r.Bytes(r.Below(60)) : r.Text("ab", r.Below(12));
  std::string affix;
  switch (r.Below(6)) {
    case 0: affix = text.substr(0, r.Below(text.size() + 1)); break;
    case 1: affix = text.substr(r.Below(text.size() + 1)); break;
    case 2: affix = text + r.Text("ab", r.Below(2)); break;
    case 3: affix = r.Text("ab", r.Below(2)) + text; break;
    default: affix = r.Text("ab", r.Below(4)); break;
  }
  if (!affix.empty() && r.Chance(1, 6)) { r.Pick(affix) = 'x'; }
  vh::Case("affix " + vh::Json(text) + " " + vh::Json(affix));
  bool pre = affix.size() <= text.size(), suf = pre;
  for (std::size_t i = 0; i < affix.size(); ++i) {
    if (pre && affix[i] != text[i]) { pre = false; }
    if (suf && affix[i] != text[text.size() - affix.size() + i]) { suf = false; }
  }
  const std::string want_pre = pre ? text.substr(affix.size()) : text;
  const std::string want_suf = suf ? text.substr(0, text.size() - affix.size()) : text;
  const std::string ctx = vh::Json(text) + ", " + vh::Json(affix);
  std::string s = text;
  vh::Eq("consume_prefix", mbo::strings::ConsumePrefix(s, affix), pre, ctx);
  vh::Eq("consume_prefix_text", s, want_pre, ctx);
  s = text;
  vh::Eq("consume_suffix", mbo::strings::ConsumeSuffix(s, affix), suf, ctx);
  vh::Eq("consume_suffix_text", s, want_suf, ctx);
  vh::Eq("strip_prefix", mbo::strings::StripPrefix(std::string(text), affix), want_pre, ctx);
  vh::Eq("strip_suffix", mbo::strings::StripSuffix(std::string(text), affix), want_suf, ctx);
  vh::Count(pre ? "with_prefix" : "without_prefix");
  vh::Count(suf ? "with_suffix" : "without_suffix");
  vh::Eval();
}
void Split(vh::Rng& r) {
  const std::string text = r.Chance(1, 8) ? r.Content(r.Below(60)) : r.Text("a/b", r.Below(10));
  const char sep = r.Of({'/', 'a', '\0', 'z'});
  vh::Case("split " + vh::Json(text));
  const std::unique_ptr<char[]> mem(new char[text.size()]);
  std::memcpy(mem.get(), text.data(), text.size());
  const std::string_view view(mem.get(), text.size());
  const auto last = text.rfind(sep);
  const std::vector<std::string> want = last == std::string::npos ? std::vector<std::string>{text} : std::vector<std::string>{text.substr(0, last), text.substr(last + 1)};
  const std::vector<std::string> got = absl::StrSplit(view, mbo::strings::AtLast(sep));
  const std::vector<std::string_view> views = absl::StrSplit(view, mbo::strings::AtLast(sep));
  const std::string ctx = vh::Json(text) + " at " + vh::Json(std::string(1, sep));
  vh::Check(got == want && std::vector<std::string>(views.begin(), views.end()) == want, "split", [&] { return ctx + " gives " + vh::Json(Join(got)); });
  for (std::size_t pos = 0; pos <= text.size(); ++pos) {
    const std::string_view f = mbo::strings::AtLast(sep).Find(view, pos);
    if (last == std::string::npos || last < pos) {
      vh::Check(f.empty() && f.data() == view.data() + view.size(), "find_none", [&] { return ctx + " finds a separator from position " + std::to_string(pos); });
    } else {
      vh::Check(f.size() == 1 && f.data() == view.data() + last, "find", [&] { return ctx + " from position " + std::to_string(pos) + " does not find the one at " + std::to_string(last); });
    }
  }
  vh::Count(want.size() == 2 ? "split_in_two" : "not_split");
  vh::Eval();
}
}  // namespace

void VhMain() {
  vh::Section("comments", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { Simple(r); });
  vh::Section("parsed", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { Parsed(r); });
  vh::Section("affix", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { Affix(r); });
  vh::Section("split", 10000, 1000000, [](vh::Rng& r, std::uint64_t) { Split(r); });
}
