#pragma once
// A glob matcher written from the documented definition, and generators of patterns and matching paths.
#include <algorithm>
#include <iterator>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "vh.h"

namespace ref_glob {
struct Opt {
  bool star_star = true, ranges = true, latin1 = false, nocase = false;
};
using Str = std::vector<char32_t>;
inline Str Decode(std::string_view s, bool latin1) {
  Str r;
  for (std::size_t i = 0; i < s.size();) {
    const unsigned char c = static_cast<unsigned char>(s[i]);
    const std::size_t n = latin1 || c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    char32_t v = n == 1 ? c : n == 2 ? c & 0x1FU : n == 3 ? c & 0xFU : c & 7U;
    for (std::size_t k = 1; k < n; ++k) { v = (v << 6U) | (static_cast<unsigned char>(s[i + k]) & 0x3FU); }
    r.push_back(v);
    i += n;
  }
  return r;
}
inline std::string Encode(char32_t c, bool latin1) {
  std::string r;
  if (latin1 || c < 0x80) { r += static_cast<char>(c); }
  else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 0x3F)); }
  else if (c < 0x10000) { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3F)); r += static_cast<char>(0x80 | (c & 0x3F)); }
  else { r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 0x3F)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3F)); r += static_cast<char>(0x80 | (c & 0x3F)); }
  return r;
}
inline char32_t Flip(char32_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c; }
struct Set {
  bool neg = false;
  std::vector<std::pair<char32_t, char32_t>> r;
  bool In(char32_t c) const { return std::any_of(r.begin(), r.end(), [&](auto& p) { return p.first <= c && c <= p.second; }); }
  bool Match(char32_t c, bool nocase) const { return (In(c) || (nocase && In(Flip(c)))) != neg; }
};
enum Kind { kLit, kSlash, kOne, kStar, kStars, kAny, kPre, kPost, kSet };
struct Tok {
  Kind kind;
  char32_t c = 0;
  bool esc = false;
  Set set{};
};
struct Parsed {
  bool ok = true;         // well-formed
  bool judged = true;     // the definition says what it means
  std::vector<Tok> toks;
  bool has_set = false;
};
inline bool ClassOf(std::string_view n, Set& s) {
  auto add = [&](std::initializer_list<std::pair<char32_t, char32_t>> l) { s.r.insert(s.r.end(), l.begin(), l.end()); return true; };
  if (n == "alnum") { return add({{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}); }
  if (n == "alpha") { return add({{'A', 'Z'}, {'a', 'z'}}); }
  if (n == "blank") { return add({{9, 9}, {32, 32}}); }
  if (n == "cntrl") { return add({{0, 31}, {127, 127}}); }
  if (n == "digit") { return add({{'0', '9'}}); }
  if (n == "graph") { return add({{33, 126}}); }
  if (n == "lower") { return add({{'a', 'z'}}); }
  if (n == "print") { return add({{32, 126}}); }
  if (n == "punct") { return add({{33, 47}, {58, 64}, {91, 96}, {123, 126}}); }
  if (n == "space") { return add({{9, 13}, {32, 32}}); }
  if (n == "upper") { return add({{'A', 'Z'}}); }
  if (n == "xdigit") { return add({{'0', '9'}, {'A', 'F'}, {'a', 'f'}}); }
  return false;
}
inline Parsed Parse(std::string_view pattern, const Opt& o) {
  const Str p = Decode(pattern, o.latin1);
  Parsed r;
  std::vector<Tok>& t = r.toks;
  auto slash = [&] {
    if (!t.empty() && t.back().kind == kSlash) {
      const std::size_t n = t.size();
      if (!(n >= 2 && t[n - 2].kind == kLit && t[n - 2].c == ':' && !t[n - 2].esc)) { return; }
    }
    t.push_back({kSlash});
  };
  std::size_t i = 0;
  while (i < p.size()) {
    const char32_t c = p[i];
    if (c == '\\') {
      if (i + 1 >= p.size()) { r.ok = false; return r; }
      if (p[i + 1] == '/') { slash(); } else { t.push_back({kLit, p[i + 1], true}); }
      i += 2;
    } else if (c == '/') {
      slash();
      ++i;
    } else if (c == '*') {
      std::size_t n = 0;
      while (i < p.size() && p[i] == '*') { ++n, ++i; }
      t.push_back({n > 1 && o.star_star ? kStars : kStar});
    } else if (c == '?') {
      t.push_back({kOne});
      ++i;
    } else if (c == '[' && o.ranges) {
      if (i + 2 < p.size() && p[i + 1] == '/' && p[i + 2] == ']') { slash(); i += 3; continue; }
      Tok tok{kSet};
      ++i;
      if (i < p.size() && p[i] == '!') { tok.set.neg = true; ++i; }
      bool first = true, closed = false, after_item = false;
      const std::size_t body = i;
      char32_t prev = 0;
      while (i < p.size()) {
        char32_t d = p[i];
        if (d == ']' && !first) { closed = true; ++i; break; }
        if (d == '[' && i + 1 < p.size() && p[i + 1] == ':') {
          std::size_t e = i + 2;
          while (e + 1 < p.size() && !(p[e] == ':' && p[e + 1] == ']')) { ++e; }
          if (e + 1 >= p.size()) { r.ok = false; return r; }
          std::string name;
          for (std::size_t k = i + 2; k < e; ++k) { name += Encode(p[k], o.latin1); }
          if (!ClassOf(name, tok.set)) { r.ok = false; return r; }
          i = e + 2;
          first = false;
          after_item = false;
          if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') { r.judged = false; }  // class as an end of a range
          continue;
        }
        if (d == '[' && i + 1 < p.size() && (p[i + 1] == '.' || p[i + 1] == '=')) { r.judged = false; }  // collating elements
        if (d == '-' && after_item && i + 1 < p.size() && p[i + 1] != ']') {
          std::size_t k = i + 1;
          if (p[k] == '[') { r.judged = false; }
          if (p[k] == '\\') {
            if (k + 1 >= p.size()) { r.ok = false; return r; }
            ++k;
          }
          if (p[k] < prev) { r.ok = false; }
          tok.set.r.back().second = p[k];
          i = k + 1;
          after_item = false;
          if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') { r.judged = false; }  // a-b-c
          continue;
        }
        if (d == '\\') {
          if (i + 1 >= p.size()) { r.ok = false; return r; }
          d = p[++i];
        }
        tok.set.r.push_back({d, d});
        prev = d;
        after_item = true;
        first = false;
        ++i;
      }
      if (!closed) { r.ok = false; return r; }
      if (!tok.set.neg && i - body > 2 && p[body] == p[i - 2] && (p[body] == ':' || p[body] == '.' || p[body] == '=')) { r.judged = false; }  // [:name:]
      r.has_set = true;
      t.push_back(std::move(tok));
    } else {
      t.push_back({kLit, c});
      ++i;
    }
  }
  if (!r.ok) { return r; }
  if (t.size() > 1 && t.back().kind == kSlash) {
    t.pop_back();
    if (t.back().kind == kSlash) { r.judged = false; }  // "x://"
  }
  // '**' in between separators or the ends.
  std::vector<Tok> u;
  for (std::size_t k = 0; k < t.size(); ++k) {
    if (t[k].kind != kStars) { u.push_back(t[k]); continue; }
    const bool next = k + 1 == t.size() || t[k + 1].kind == kSlash;
    if (!u.empty() && u.back().kind == kSlash && next) {
      u.back() = {kPre};
    } else if (k == 0 && k + 1 < t.size() && t[k + 1].kind == kSlash) {
      u.push_back({kPost});
      ++k;
      if (k + 1 < t.size() && t[k + 1].kind == kStars) { r.judged = false; }  // '**/**' at the start: contradicting documentation
    } else {
      u.push_back({kAny});
    }
  }
  t = std::move(u);
  return r;
}
// Which suffixes of the path can be reached after a token (sets of positions).
inline bool Matches(const std::vector<Tok>& toks, const Str& s, bool nocase, bool set_slash) {
  const std::size_t n = s.size();
  std::vector<char> at(n + 1, 0);
  at[0] = 1;
  for (const Tok& t : toks) {
    std::vector<char> to(n + 1, 0);
    for (std::size_t i = 0; i <= n; ++i) {
      if (at[i] == 0) { continue; }
      switch (t.kind) {
        case kLit: if (i < n && (s[i] == t.c || (nocase && Flip(s[i]) == t.c))) { to[i + 1] = 1; } break;
        case kSlash: if (i < n && s[i] == '/') { to[i + 1] = 1; } break;
        case kOne: if (i < n && s[i] != '/') { to[i + 1] = 1; } break;
        case kSet: if (i < n && (s[i] != '/' || set_slash) && t.set.Match(s[i], nocase)) { to[i + 1] = 1; } break;
        case kStar:
          for (std::size_t k = i; k <= n; ++k) { to[k] = 1; if (k == n || s[k] == '/') { break; } }
          break;
        case kAny: for (std::size_t k = i; k <= n; ++k) { to[k] = 1; } break;
        case kPre: to[i] = 1; if (i < n && s[i] == '/') { for (std::size_t k = i + 2; k <= n; ++k) { to[k] = 1; } } break;
        case kPost: to[i] = 1; for (std::size_t k = i + 1; k < n; ++k) { if (s[k] == '/') { to[k + 1] = 1; } } break;
        case kStars: break;
      }
    }
    at = std::move(to);
  }
  return at[n] != 0;
}

inline constexpr char32_t kAlphabet[] = {'a', 'b', 'B', 'c', 'z', '0', '9', '.', '/', '-', '_', '*', '?', '[', ']', '!', '^', '$', '\\', '{', '}', '(', ')', '|', '+', ':', ' ', '\n', ',', '~', '#', '&', '<', '=', '@', '"', '\''};
inline char32_t AnyChar(vh::Rng& r, const Opt& o) {
  if (r.Chance(1, 12)) {
    if (o.latin1) { return r.Range(0x80, 0xFF); }
    return r.Of<char32_t>({0xDF, 0x3B1, 0x6F22, 0x1F600, 0x2028});
  }
  if (r.Chance(1, 10)) { return r.Range(1, 127); }
  return kAlphabet[r.Below(std::size(kAlphabet))];
}
inline std::string Enc(const Str& s, bool latin1) {
  std::string r;
  for (char32_t c : s) { r += Encode(c, latin1); }
  return r;
}
inline Str Instance(vh::Rng& r, const std::vector<Tok>& toks, const Opt& o) {
  Str s;
  auto some = [&](bool slash, std::size_t min) {
    const std::size_t n = min + r.Below(4);
    for (std::size_t i = 0; i < n; ++i) {
      char32_t c = r.Chance(1, 4) && slash ? U'/' : r.Coin() ? U'a' : AnyChar(r, o);
      if (c == '/' && !slash) { c = 'x'; }
      s.push_back(c);
    }
  };
  for (const Tok& t : toks) {
    switch (t.kind) {
      case kLit: s.push_back(o.nocase && r.Coin() ? Flip(t.c) : t.c); break;
      case kSlash: s.push_back('/'); break;
      case kOne: { char32_t c = AnyChar(r, o); s.push_back(c == '/' ? U'q' : c); break; }
      case kSet: {
        if (t.set.neg) { s.push_back(AnyChar(r, o)); break; }
        if (t.set.r.empty()) { break; }
        const auto& p = r.Pick(t.set.r);
        s.push_back(r.Coin() ? p.first : p.second);
        break;
      }
      case kStar: some(false, 0); break;
      case kAny: some(true, 0); break;
      case kPre: if (r.Coin()) { s.push_back('/'); some(true, 1); } break;
      case kPost: if (r.Coin()) { some(true, 1); s.push_back('/'); } break;
      case kStars: break;
    }
  }
  return s;
}
inline std::string RandomPattern(vh::Rng& r, const Opt& o) {
  std::string p;
  const int n = static_cast<int>(r.Below(9));
  for (int i = 0; i < n; ++i) {
    switch (r.Below(14)) {
      case 0: p += "*"; break;
      case 1: p += "**"; break;
      case 2: p += r.Of({"/**/", "/**", "**/", "***", "/*/", "//", "\\/"}); break;
      case 3: p += "?"; break;
      case 4: case 5: p += "/"; break;
      case 6: p += "\\" + Encode(AnyChar(r, o), o.latin1); break;
      case 7: p += Encode(AnyChar(r, o), o.latin1); break;
      case 8: case 9: {
        p += r.Chance(1, 3) ? "[!" : "[";
        if (r.Chance(1, 5)) { p += r.Of({"]", "^", "-", "]-", "^-"}); }
        const int m = static_cast<int>(r.Below(4));
        for (int k = 0; k < m; ++k) {
          switch (r.Below(8)) {
            case 0: { std::string lo = r.Of<std::string>({"a", "0", "A", "+", "!", "*"}); p += lo + "-" + r.Of<std::string>({"z", "9", "Z", "c"}); break; }
            case 1: p += r.Of({"[:alpha:]", "[:digit:]", "[:upper:]", "[:punct:]", "[:space:]", "[:xdigit:]", "[:alnum:]", "[:blank:]", "[:cntrl:]", "[:graph:]", "[:lower:]", "[:print:]"}); break;
            case 2: p += r.Of({"\\]", "\\-", "\\\\", "\\^", "\\[", "\\d", "\\w", "\\n", "\\b", "\\/", "\\!", "\\_"}); break;
            case 3: p += r.Of({"*", "?", "/", ".", "$", "^", "[", "!", "|", "**", "//", "[/"}); break;
            default: p += Encode(AnyChar(r, o), o.latin1); break;
          }
        }
        if (r.Chance(1, 12)) { p += "-"; }
        if (!r.Chance(1, 14)) { p += "]"; }
        break;
      }
      default: p += r.Of({"a", "b", "foo", ".cc", "x.y", "c", "a+b", "(x|y)", "$HOME", "^", "{a,b}", "ftp:", "[/]"}); break;
    }
  }
  return p;
}
}  // namespace ref_glob
