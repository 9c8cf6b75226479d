// Independent readers of the unified, context and normal diff formats, a strict patch application, and text generators.
#pragma once
#include <algorithm>
#include <cstddef>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "vh.h"

namespace ref {
struct Line {
  std::string text;
  bool nl = true;
  bool operator==(const Line&) const = default;
};
using Lines = std::vector<Line>;
inline Lines Split(std::string_view t) {
  Lines out;
  while (!t.empty()) {
    const std::size_t p = t.find('\n');
    if (p == std::string_view::npos) {
      out.push_back({std::string(t), false});
      break;
    }
    out.push_back({std::string(t.substr(0, p)), true});
    t.remove_prefix(p + 1);
  }
  return out;
}
inline std::string Join(const Lines& l) {
  std::string out;
  for (const Line& x : l) {
    out += x.text;
    if (x.nl) { out += '\n'; }
  }
  return out;
}
struct Op {
  char kind;  // ' ', '-', '+'
  Line line;
};
struct Hunk {
  std::size_t l = 0, ln = 0, r = 0, rn = 0;  // 0 based first line (of the gap when empty), number of lines
  std::vector<Op> ops;
};
struct Script {
  std::vector<Hunk> hunks;
  std::vector<std::string> header;
  std::string error;
};
inline constexpr std::string_view kNoNl = "\\ No newline at end of file";

class Reader {
 public:
  explicit Reader(std::string_view t) {
    while (!t.empty()) {
      const std::size_t p = t.find('\n');
      if (p == std::string_view::npos) {
        unterminated = true;
        v.emplace_back(t);
        break;
      }
      v.emplace_back(t.substr(0, p));
      t.remove_prefix(p + 1);
    }
  }
  bool Done() const { return i >= v.size(); }
  const std::string& Peek() const {
    static const std::string kNone = "\1<end>";
    return Done() ? kNone : v[i];
  }
  std::string Next() { return Done() ? "\1<end>" : v[i++]; }
  bool Marker() {
    if (!Done() && v[i] == kNoNl) {
      ++i;
      return true;
    }
    return false;
  }
  std::vector<std::string> v;
  std::size_t i = 0;
  bool unterminated = false;
};

inline std::optional<std::size_t> Num(std::string_view& s) {
  if (s.empty() || s[0] < '0' || s[0] > '9') { return std::nullopt; }
  std::size_t x = 0;
  while (!s.empty() && s[0] >= '0' && s[0] <= '9') {
    x = x * 10 + static_cast<std::size_t>(s[0] - '0');
    s.remove_prefix(1);
  }
  return x;
}
inline bool Eat(std::string_view& s, std::string_view p) {
  if (!s.starts_with(p)) { return false; }
  s.remove_prefix(p.size());
  return true;
}
// `a` or `a,b`
struct Pos {
  std::size_t a = 0;
  std::optional<std::size_t> b;
};
inline std::optional<Pos> ReadPos(std::string_view& s) {
  const auto a = Num(s);
  if (!a) { return std::nullopt; }
  Pos p{*a, std::nullopt};
  if (Eat(s, ",")) {
    p.b = Num(s);
    if (!p.b) { return std::nullopt; }
  }
  return p;
}

inline Script ParseUnified(std::string_view diff, bool header) {
  Script out;
  Reader rd(diff);
  const auto bad = [&](const std::string& why) {
    out.error = why + " at diff line " + std::to_string(rd.i);
    return out;
  };
  if (rd.unterminated) { return bad("unterminated output"); }
  if (header && !rd.Done()) {
    out.header = {rd.Next(), rd.Next()};
    if (!out.header[0].starts_with("--- ") || !out.header[1].starts_with("+++ ")) { return bad("bad file header"); }
  }
  while (!rd.Done()) {
    const std::string h = rd.Next();
    std::string_view s = h;
    if (!Eat(s, "@@ -")) { return bad("expected a hunk header"); }
    const auto l = ReadPos(s);
    if (!l || !Eat(s, " +")) { return bad("bad hunk header"); }
    const auto r = ReadPos(s);
    if (!r || s != " @@") { return bad("bad hunk header"); }
    Hunk k;
    k.ln = l->b.value_or(1);
    k.rn = r->b.value_or(1);
    if ((k.ln != 0 && l->a == 0) || (k.rn != 0 && r->a == 0)) { return bad("line 0 with lines"); }
    k.l = k.ln == 0 ? l->a : l->a - 1;
    k.r = k.rn == 0 ? r->a : r->a - 1;
    std::size_t nl = 0, nr = 0;
    while (nl < k.ln || nr < k.rn) {
      if (rd.Done()) { return bad("hunk body shorter than its header says"); }
      const std::string x = rd.Next();
      const char c = x.empty() ? '?' : x[0];
      if (c != ' ' && c != '-' && c != '+') { return bad("hunk body shorter than its header says or bad line"); }
      nl += c != '+' ? 1 : 0;
      nr += c != '-' ? 1 : 0;
      k.ops.push_back({c, {x.substr(1), !rd.Marker()}});
    }
    if (nl != k.ln || nr != k.rn) { return bad("hunk body longer than its header says"); }
    out.hunks.push_back(std::move(k));
  }
  return out;
}

inline Script ParseContext(std::string_view diff, bool header) {
  Script out;
  Reader rd(diff);
  const auto bad = [&](const std::string& why) {
    out.error = why + " at diff line " + std::to_string(rd.i);
    return out;
  };
  if (rd.unterminated) { return bad("unterminated output"); }
  if (header && !rd.Done()) {
    out.header = {rd.Next(), rd.Next()};
    if (!out.header[0].starts_with("*** ") || !out.header[1].starts_with("--- ")) { return bad("bad file header"); }
  }
  while (!rd.Done()) {
    if (rd.Next() != "***************") { return bad("expected a hunk separator"); }
    const auto range = [&](std::string_view open, std::string_view close) -> std::optional<Pos> {
      const std::string h = rd.Next();
      std::string_view s = h;
      if (!Eat(s, open)) { return std::nullopt; }
      auto p = ReadPos(s);
      if (!p || s != close) { return std::nullopt; }
      return p;
    };
    const auto body = [&](std::string_view marks) {
      std::vector<Op> v;
      while (!rd.Done() && rd.Peek().size() >= 2 && rd.Peek()[1] == ' ' && marks.find(rd.Peek()[0]) != std::string_view::npos) {
        const std::string x = rd.Next();
        v.push_back({x[0], {x.substr(2), !rd.Marker()}});
      }
      return v;
    };
    const auto l = range("*** ", " ****");
    if (!l) { return bad("bad left range"); }
    std::vector<Op> lb = body(" !-");
    const auto r = range("--- ", " ----");
    if (!r) { return bad("bad right range"); }
    std::vector<Op> rb = body(" !+");
    if (lb.empty() && rb.empty()) { return bad("empty hunk"); }
    const auto common = [](const std::vector<Op>& v) {
      std::vector<Op> c;
      for (const Op& o : v) {
        if (o.kind == ' ') { c.push_back(o); }
      }
      return c;
    };
    if (lb.empty()) {
      lb = common(rb);
    } else if (rb.empty()) {
      rb = common(lb);
    }
    Hunk k;
    k.ln = lb.size();
    k.rn = rb.size();
    const auto place = [&](const Pos& p, std::size_t n, std::size_t& first) {
      if (p.b) {
        first = p.a - 1;
        return n >= 2 && p.a >= 1 && *p.b == p.a + n - 1;
      }
      first = n == 0 ? p.a : p.a - 1;
      return n == 0 || (n == 1 && p.a >= 1);
    };
    if (!place(*l, k.ln, k.l)) { return bad("left range does not fit the number of left lines"); }
    if (!place(*r, k.rn, k.r)) { return bad("right range does not fit the number of right lines"); }
    std::size_t i = 0, j = 0;
    while (i < lb.size() || j < rb.size()) {
      const std::size_t i0 = i, j0 = j;
      while (i < lb.size() && lb[i].kind != ' ') { ++i; }
      while (j < rb.size() && rb[j].kind != ' ') { ++j; }
      if (i > i0 || j > j0) {
        std::size_t lc = 0, rc = 0;
        for (std::size_t a = i0; a < i; ++a) { lc += lb[a].kind == '!' ? 1 : 0; }
        for (std::size_t a = j0; a < j; ++a) { rc += rb[a].kind == '!' ? 1 : 0; }
        if ((lc != 0) != (rc != 0)) { return bad("'!' on one side only"); }
        for (std::size_t a = i0; a < i; ++a) { k.ops.push_back({'-', lb[a].line}); }
        for (std::size_t a = j0; a < j; ++a) { k.ops.push_back({'+', rb[a].line}); }
        continue;
      }
      if (i >= lb.size() || j >= rb.size() || lb[i].line != rb[j].line) { return bad("the common lines of the two sides differ"); }
      k.ops.push_back({' ', lb[i].line});
      ++i;
      ++j;
    }
    out.hunks.push_back(std::move(k));
  }
  return out;
}

inline Script ParseNormal(std::string_view diff) {
  Script out;
  Reader rd(diff);
  const auto bad = [&](const std::string& why) {
    out.error = why + " at diff line " + std::to_string(rd.i);
    return out;
  };
  if (rd.unterminated) { return bad("unterminated output"); }
  while (!rd.Done()) {
    const std::string h = rd.Next();
    std::string_view s = h;
    const auto l = ReadPos(s);
    if (!l || s.empty()) { return bad("bad command"); }
    const char cmd = s[0];
    s.remove_prefix(1);
    const auto r = ReadPos(s);
    if (!r || !s.empty() || (cmd != 'a' && cmd != 'd' && cmd != 'c')) { return bad("bad command"); }
    if ((cmd == 'a' && l->b) || (cmd == 'd' && r->b)) { return bad("range where a single line is due"); }
    Hunk k;
    const auto size = [](const Pos& p) { return p.b ? *p.b - p.a + 1 : 1; };
    if ((l->b && *l->b <= l->a) || (r->b && *r->b <= r->a)) { return bad("bad range"); }
    k.ln = cmd == 'a' ? 0 : size(*l);
    k.rn = cmd == 'd' ? 0 : size(*r);
    if ((k.ln != 0 && l->a == 0) || (k.rn != 0 && r->a == 0)) { return bad("line 0 with lines"); }
    k.l = k.ln == 0 ? l->a : l->a - 1;
    k.r = k.rn == 0 ? r->a : r->a - 1;
    for (std::size_t i = 0; i < k.ln; ++i) {
      const std::string x = rd.Next();
      if (!x.starts_with("< ")) { return bad("too few deleted lines"); }
      k.ops.push_back({'-', {x.substr(2), !rd.Marker()}});
    }
    if (cmd == 'c' && rd.Next() != "---") { return bad("separator missing"); }
    for (std::size_t i = 0; i < k.rn; ++i) {
      const std::string x = rd.Next();
      if (!x.starts_with("> ")) { return bad("too few added lines"); }
      k.ops.push_back({'+', {x.substr(2), !rd.Marker()}});
    }
    out.hunks.push_back(std::move(k));
  }
  return out;
}

// Applies strictly: every hunk exactly where it says, in order, without overlap.
struct Applied {
  std::string error;
  std::string text;
  std::size_t changes = 0;
};
inline Applied Apply(const Lines& lhs, const Script& s) {
  Applied out;
  Lines res;
  std::size_t at = 0;
  std::size_t n = 0;
  for (const Hunk& h : s.hunks) {
    ++n;
    const auto bad = [&](const std::string& why) {
      out.error = "hunk " + std::to_string(n) + ": " + why;
      return out;
    };
    if (h.l < at) { return bad("overlaps the one before"); }
    if (h.l > lhs.size()) { return bad("starts behind the end"); }
    while (at < h.l) { res.push_back(lhs[at++]); }
    if (res.size() != h.r) { return bad("right side position " + std::to_string(h.r) + " but " + std::to_string(res.size()) + " lines precede it"); }
    bool any = false;
    for (const Op& o : h.ops) {
      if (o.kind != '+') {
        if (at >= lhs.size()) { return bad("runs behind the end of the left side"); }
        if (lhs[at] != o.line) { return bad("line " + std::to_string(at + 1) + " of the left side is " + vh::Show(lhs[at].text) + " but the hunk has " + vh::Show(o.line.text) + (lhs[at].nl != o.line.nl ? " (final newline)" : "")); }
        ++at;
      }
      if (o.kind != '-') { res.push_back(o.line); }
      if (o.kind != ' ') {
        any = true;
        ++out.changes;
      }
    }
    if (!any) { return bad("has no change"); }
  }
  while (at < lhs.size()) { res.push_back(lhs[at++]); }
  out.text = Join(res);
  return out;
}

inline std::string RandLine(vh::Rng& r, unsigned kind) {
  switch (kind) {
    case 0: return std::string(1, static_cast<char>('a' + r.Below(3)));
    case 1: return "line " + std::to_string(r.Below(40));
    case 2: {
      static const char* kOdd[] = {"", "", " ", "-", "+", "--", "---", "--- a", "+++ b", "@@ -1 +1 @@", "@@ -1,2 +3,4 @@", "***************", "*** 1,3 ****", "--- 1,3 ----", "< x", "> x", "! x", "\\ No newline at end of file", "\r", "x\r", "\t", "a\tb", "1c1", "0a1", "diff --git", "\xC3\xA9", "\xFF\xFE", "%s%n", "Index: x", "Only in a: b", "a", "b"};
      return std::string(r.Pick(kOdd));
    }
    case 3: return r.Text("ab {}();\t", r.Below(12));
    default: {
      std::string s = r.Bytes(r.Below(6));
      std::erase(s, '\n');
      return s;
    }
  }
}
struct Pair {
  std::string lhs, rhs;
};
inline Pair RandPair(vh::Rng& r, std::size_t max_lines, bool bytes = true) {
  const unsigned kind = static_cast<unsigned>(r.Below(bytes ? 5 : 4));
  const std::size_t n = r.Below(4) == 0 ? r.Below(5) : r.Below(max_lines + 1);
  Lines l;
  for (std::size_t i = 0; i < n; ++i) { l.push_back({RandLine(r, kind), true}); }
  Lines m;
  if (r.Chance(1, 4)) {
    const std::size_t k = r.Below(max_lines + 1);
    for (std::size_t i = 0; i < k; ++i) { m.push_back({RandLine(r, kind), true}); }
  } else {
    m = l;
    const std::size_t edits = r.Chance(1, 8) ? r.Below(n + 2) : r.Below(6);
    for (std::size_t e = 0; e < edits; ++e) {
      const std::size_t at = r.Below(m.size() + 1);
      switch (r.Below(5)) {
        case 0: m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), {RandLine(r, kind), true}); break;
        case 1:
          if (at < m.size()) { m.erase(m.begin() + static_cast<std::ptrdiff_t>(at)); }
          break;
        case 2:
          if (at < m.size()) { m[at].text = RandLine(r, kind); }
          break;
        case 3: {  // a block moves
          if (m.size() < 2) { break; }
          const std::size_t b = r.Below(m.size()), len = 1 + r.Below(m.size() - b);
          Lines blk(m.begin() + static_cast<std::ptrdiff_t>(b), m.begin() + static_cast<std::ptrdiff_t>(b + len));
          m.erase(m.begin() + static_cast<std::ptrdiff_t>(b), m.begin() + static_cast<std::ptrdiff_t>(b + len));
          m.insert(m.begin() + static_cast<std::ptrdiff_t>(r.Below(m.size() + 1)), blk.begin(), blk.end());
          break;
        }
        default: {
          const std::size_t len = r.Below(5);
          Lines blk;
          for (std::size_t i = 0; i < len; ++i) { blk.push_back({RandLine(r, kind), true}); }
          m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), blk.begin(), blk.end());
        }
      }
    }
  }
  Pair p{Join(l), Join(m)};
  if (r.Chance(1, 4) && !p.lhs.empty()) { p.lhs.pop_back(); }
  if (r.Chance(1, 4) && !p.rhs.empty()) { p.rhs.pop_back(); }
  if (r.Chance(1, 16)) { std::swap(p.lhs, p.rhs); }
  return p;
}
inline std::size_t Lcs(const std::vector<std::size_t>& a, const std::vector<std::size_t>& b) {
  std::vector<std::size_t> d(b.size() + 1, 0);
  for (const std::size_t x : a) {
    std::size_t diag = 0;
    for (std::size_t j = 0; j < b.size(); ++j) {
      const std::size_t up = d[j + 1];
      d[j + 1] = x == b[j] ? diag + 1 : std::max(up, d[j]);
      diag = up;
    }
  }
  return d.back();
}
}  // namespace ref
