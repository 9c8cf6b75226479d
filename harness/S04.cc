// VH-SRC: mbo/strings/parse.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random and exhaustively enumerated short inputs over quotes, backslashes, digits, braces, escape letters and separators, for random option sets; every byte through every escape form; byte strings encoded with random escapes and quotes and parsed back; an independent decoder written from parse.h and the C++ escape grammar; inputs held in allocations of exactly their size
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/strings/parse.h"
#include "vh.h"

namespace {
using mbo::strings::ParseOptions;

struct Opts {
  std::string stop, stop_str, split, custom = "(){}[]<>,;&";
  bool dq = true, sq = true, remove = true, unquoted = true;
  ParseOptions Make() const {
    return {.stop_at_any_of = stop, .stop_at_str = stop_str, .split_at_any_of = split, .enable_double_quotes = dq,
            .enable_single_quotes = sq, .remove_quotes = remove, .allow_unquoted = unquoted, .custom_escapes = custom};
  }
  std::string Show() const {
    return "{stop " + vh::Json(stop) + " stop_str " + vh::Json(stop_str) + " split " + vh::Json(split) + " custom " + vh::Json(custom)
           + (dq ? " dq" : "") + (sq ? " sq" : "") + (remove ? " remove" : "") + (unquoted ? " unquoted" : "") + "}";
  }
};

// The decoder. Position based, nothing shared with the code.
struct Ref {
  const Opts& o;
  const std::string& in;
  std::size_t at = 0;
  bool ambiguous = false;  // An octal escape above 0377: C++ does not define a character for it.
  static int Oct(char c) { return c >= '0' && c <= '7' ? c - '0' : -1; }
  static int Hex(char c) {
    const char* d = "0123456789abcdef0123456789ABCDEF";
    for (int i = 0; i < 32; ++i) { if (d[i] == c && c != 0) { return i % 16; } }
    return -1;
  }
  char Peek(std::size_t k = 0) const { return at + k < in.size() ? in[at + k] : '!'; }  // '!' is no part of any escape.
  bool Stop(bool with_split) const {
    return o.stop.find(in[at]) != std::string::npos || (with_split && o.split.find(in[at]) != std::string::npos)
           || (!o.stop_str.empty() && in.compare(at, o.stop_str.size(), o.stop_str) == 0);
  }
  // The value of the escape at `at` (behind the backslash).
  std::optional<char> Escape() {
    if (at >= in.size()) { return std::nullopt; }
    const char c = in[at++];
    if (o.custom.find(c) != std::string::npos) { return c; }
    static const std::string names = "'\"?\\abfnrtv", values = "'\"?\\\a\b\f\n\r\t\v";
    if (const auto p = names.find(c); p != std::string::npos) { return values[p]; }
    int v = 0;
    unsigned n = 0;
    if (Oct(c) >= 0) {
      --at;
      for (; n < 3 && Oct(Peek()) >= 0; ++n) { v = v * 8 + Oct(in[at++]); }
      ambiguous = ambiguous || v > 255;
      return static_cast<char>(v);
    }
    if (c == 'o') {
      if (Peek() != '{') { return std::nullopt; }
      ++at;
      for (; n < 3 && Oct(Peek()) >= 0; ++n) { v = v * 8 + Oct(in[at++]); }
      if (n == 0 || Peek() != '}') { return std::nullopt; }
      ++at;
      ambiguous = ambiguous || v > 255;
      return static_cast<char>(v);
    }
    if (c == 'x') {
      const bool brace = Peek() == '{';
      if (brace) { ++at; }
      for (; n < 2 && Hex(Peek()) >= 0; ++n) { v = v * 16 + Hex(in[at++]); }
      if (n == 0 || (brace && Peek() != '}')) { return std::nullopt; }
      if (brace) { ++at; }
      return static_cast<char>(v);
    }
    return std::nullopt;
  }
  std::optional<std::string> String() {
    std::string r;
    char quote = 0;
    while (at < in.size()) {
      const char c = in[at];
      if (quote == 0) {
        if (Stop(true)) { return r; }
        const bool opens = (c == '"' && o.dq) || (c == '\'' && o.sq);
        if (!opens && !o.unquoted) { return r; }
        if (opens) { quote = c; ++at; if (!o.remove) { r += c; } continue; }
      } else if (c == quote) {
        quote = 0;
        ++at;
        if (!o.remove) { r += c; }
        continue;
      }
      ++at;
      if (c != '\\') { r += c; continue; }
      const auto e = Escape();
      if (!e.has_value()) { return std::nullopt; }
      r += *e;
    }
    if (quote != 0) { return std::nullopt; }
    return r;
  }
  std::optional<std::vector<std::string>> List() {
    std::vector<std::string> r;
    if (in.empty() || Stop(false)) { return r; }
    while (true) {
      auto s = String();
      if (!s.has_value()) { return std::nullopt; }
      r.push_back(*s);
      if (at >= in.size() || Stop(false) || o.split.find(in[at]) == std::string::npos) { return r; }
      ++at;
      if (at >= in.size()) { r.emplace_back(); return r; }
    }
  }
};

std::string ShowList(const std::vector<std::string>& v) {
  std::string s = "[";
  for (const auto& x : v) { s += vh::Json(x) + " "; }
  return s + "]";
}
void One(const Opts& o, const std::string& in, bool list) {
  const std::unique_ptr<char[]> mem(new char[in.size()]);
  std::memcpy(mem.get(), in.data(), in.size());
  std::string_view data(mem.get(), in.size());
  Opts list_opts = o;
  if (list && list_opts.split.empty()) { list_opts.split = ","; }
  Ref ref{list ? list_opts : o, in};
  const std::string ctx = std::string(list ? "ParseStringList " : "ParseString ") + vh::Json(in) + " " + o.Show();
  vh::Case(ctx);
  std::string want, got;
  bool want_ok = false, got_ok = false;
  if (list) {
    const auto w = ref.List();
    const auto g = mbo::strings::ParseStringList(o.Make(), data);
    want_ok = w.has_value();
    got_ok = g.ok();
    if (want_ok) { want = ShowList(*w); }
    if (got_ok) { got = ShowList(*g); vh::Count("list_elements", g->size()); }
  } else {
    const auto w = ref.String();
    const auto g = mbo::strings::ParseString(o.Make(), data);
    want_ok = w.has_value();
    got_ok = g.ok();
    if (want_ok) { want = *w; }
    if (got_ok) { got = *g; }
  }
  vh::Eval();
  if (ref.ambiguous) { vh::Count("octal_above_0377_not_judged"); return; }
  vh::Count(want_ok ? (ref.at == in.size() ? "parsed_whole" : "stopped_early") : "rejected");
  vh::Distinct(vh::HashAll(in, o.Show()));
  if (!vh::Check(want_ok == got_ok, list ? "list_ok" : "string_ok", [&] { return ctx + (got_ok ? " succeeds with " + vh::Json(got) + ", an error is due" : " fails, want " + vh::Json(want)); })) { return; }
  if (!want_ok) { return; }
  vh::Eq(list ? "list_value" : "string_value", got, want, ctx);
  vh::Eq(list ? "list_rest" : "string_rest", std::string(data), in.substr(ref.at), ctx);
  vh::Check(data.empty() || data.data() + data.size() == mem.get() + in.size(), "rest_view", ctx);
}
Opts RandomOpts(vh::Rng& r) {
  Opts o;
  if (r.Chance(1, 3)) { o.stop = r.Text(std::string(".;#,\\'\"x\0", 9), 1 + r.Below(2)); }
  if (r.Chance(1, 3)) { o.stop_str = r.Of<std::string>({"//", ",,", "a", "'a", "\\", "ab", "##", "\"\"", std::string("\0a", 2)}); }
  if (r.Chance(1, 2)) { o.split = r.Text(",;.a\\'/", 1 + r.Below(2)); }
  if (r.Chance(1, 3)) { o.custom = r.Text(",;nx0'o{\\", r.Below(4)); }
  if (r.Chance(1, 2)) { o.dq = r.Coin(); o.sq = r.Coin(); o.remove = r.Coin(); }
  if (r.Chance(1, 4)) { o.unquoted = false; }
  return o;
}
// A text that parses to `want` (default options with the given quotes available).
std::string Encode(vh::Rng& r, const std::string& want) {
  std::string s;
  char quote = 0;
  for (const char c : want) {
    if (r.Chance(1, 5)) {
      const char q = r.Coin() ? '"' : '\'';
      if (quote == 0) { quote = q; s += q; } else { s += quote; quote = 0; }
    }
    const unsigned u = static_cast<unsigned char>(c);
    char b[8];
    static const std::string names = "'\"?\\abfnrtv", values = "'\"?\\\a\b\f\n\r\t\v";
    switch (r.Below(7)) {
      case 0: std::snprintf(b, sizeof(b), "\\x%02x", u); s += b; break;
      case 1: std::snprintf(b, sizeof(b), "\\x%02X", u); s += b; break;
      case 2: std::snprintf(b, sizeof(b), r.Coin() ? "\\x{%x}" : "\\x{%02x}", u); s += b; break;
      case 3: std::snprintf(b, sizeof(b), "\\%03o", u); s += b; break;
      case 4: std::snprintf(b, sizeof(b), r.Coin() ? "\\o{%o}" : "\\o{%03o}", u); s += b; break;
      default: {
        const auto p = values.find(c);
        if (p != std::string::npos && (r.Coin() || c == '\\' || ((c == '"' || c == '\'') && (quote == 0 || c == quote)))) { s += '\\'; s += names[p]; }
        else if (std::string("(){}[]<>,;&").find(c) != std::string::npos && r.Coin()) { s += '\\'; s += c; }
        else { s += c; }
      }
    }
  }
  if (quote != 0) { s += quote; }
  return s;
}
}  // namespace

void VhMain() {
  vh::Once("escapes", [](vh::Rng&) {
    Opts bare;
    bare.custom.clear();
    for (int a = 0; a < 256; ++a) {
      const std::string s = std::string("\\") + static_cast<char>(a);
      One({}, s, false);
      One(bare, s, false);
      One({}, s + "1", false);
      for (const std::string& p : {std::string("\\x"), std::string("\\x{"), std::string("\\o{"), std::string("\\o"), std::string("\\1"), std::string("\\01"), std::string("\\x1"), std::string("\\x{1"), std::string("\\o{1"), std::string("\\o{01"), std::string("\\u"), std::string("\\U"), std::string("\\N")}) {
        for (const std::string& e : {"", "}", "}}", "1", "1}", "01", "01}", "001}", "0001}"}) {
          One(bare, p + static_cast<char>(a) + e, false);
          One(bare, p + e, false);
        }
      }
    }
  });
  vh::Once("short", [](vh::Rng&) {
    static const std::string alphabet = "a'\"\\,1";
    const std::size_t max = vh::Thorough() ? 7 : 5;
    for (unsigned mask = 0; mask < 16; ++mask) {
      Opts o;
      o.dq = (mask & 1U) == 0; o.sq = (mask & 2U) == 0; o.remove = (mask & 4U) == 0; o.unquoted = (mask & 8U) == 0;
      o.split = ",";
      o.custom = ",";
      for (std::size_t n = 0, num = 1; n <= max; ++n, num *= alphabet.size()) {
        for (std::size_t k = 0; k < num; ++k) {
          std::string s;
          for (std::size_t i = 0, v = k; i < n; ++i, v /= alphabet.size()) { s += alphabet[v % alphabet.size()]; }
          if (mask != 0 && n == max && k % 4 != 0) { continue; }
          One(o, s, false);
          One(o, s, true);
        }
      }
    }
  });
  vh::Section("random", 40000, 4000000, [](vh::Rng& r, std::uint64_t i) {
    const Opts o = RandomOpts(r);
    std::string in;
    const std::size_t n = r.Len(60, 8);
    while (in.size() < n) {
      switch (r.Below(8)) {
        case 0: in += r.Of<std::string>({"\\x41", "\\x{4", "\\o{101}", "\\101", "\\7", "\\n", "\\\\", "\\'", "\\\"", "\\,", "\\u", "\\o{8}", "\\xg"}); break;
        case 1: in += r.Of<std::string>({"'", "\"", "''", "\"\"", "'\"'", "\"'\""}); break;
        case 2: in += r.Of<std::string>({"//", ",,", ";", ".", "#", "ab", ",", "/", "\\"}); break;
        case 3: in += r.Bytes(1); break;
        default: in += r.Text("ab1 /,;.'\"", 1 + r.Below(3)); break;
      }
    }
    One(o, in, false);
    One(o, in, true);
    if (i % 9001 == 1) { vh::SampleText(vh::Json(in) + " " + o.Show()); }
  });
  vh::Section("round_trip", 10000, 1000000, [](vh::Rng& r, std::uint64_t) {
    const std::string want = r.Coin() ? r.Content(r.Below(40)) : r.Text("ab'\"\\,;01xn?", r.Below(40));
    const std::string text = Encode(r, want);
    vh::Case(vh::Json(text));
    std::string_view data = text;
    const auto got = mbo::strings::ParseString({}, data);
    vh::Check(got.ok() && *got == want && data.empty(), "round_trip", [&] { return vh::Json(text) + " does not parse to " + vh::Json(want) + " but " + (got.ok() ? vh::Json(*got) : "an error"); });
    // As elements of a list.
    const std::string two = text + "," + Encode(r, "") + "," + text;
    data = two;
    bool has_comma = false;  // An unquoted comma splits.
    std::vector<std::string> expect;
    { Opts o; o.split = ","; Ref ref{o, two}; if (auto l = ref.List()) { expect = *l; has_comma = expect.size() != 3; } }
    const auto list = mbo::strings::ParseStringList({}, data);
    vh::Check(list.ok() && (has_comma || (list->size() == 3 && (*list)[0] == want && (*list)[1].empty() && (*list)[2] == want)), "list_round_trip", vh::Json(two));
    vh::Eval();
    vh::Distinct(vh::HashAll(text));
    vh::Count("round_trips");
  });
}
