#ifndef MOPE_MODEL_H_
#define MOPE_MODEL_H_
// Template programs as trees: a generator, a writer (tree to template text) and an evaluator (tree and data to output).
// The evaluator never looks at template text.
#include <climits>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "vh.h"

namespace mope_model {
struct Scope {
  std::map<std::string, std::string> vals;
  std::map<std::string, std::vector<Scope>> secs;
  bool Has(const std::string& n) const { return vals.count(n) > 0 || secs.count(n) > 0; }
};
inline std::string ShowMap(const std::map<std::string, std::string>& m) {
  std::string s;
  for (const auto& [k, v] : m) { s += k + "=" + v + " "; }
  return s;
}
inline std::string Show(const Scope& s) {
  std::string o = "{" + vh::Show(ShowMap(s.vals));
  for (const auto& [k, v] : s.secs) {
    o += " " + k + ":[";
    for (const Scope& e : v) { o += Show(e) + " "; }
    o += "]";
  }
  return o + "}";
}

struct Join {
  enum K { kNone, kLiteral, kRef } k = kNone;
  std::string s;
};
struct Num {
  std::string ref;  // empty: the number
  std::int64_t n = 0;
};
enum class Kind { kText, kValue, kSection, kRange, kList, kControl, kComment };
struct Node {
  Kind kind = Kind::kText;
  std::string text;  // text, control value, comment body
  std::string name;
  bool block = false;  // tags alone on their lines
  std::string indent_start, indent_end;
  Join join;
  Num from, to, step;
  bool has_step = false;
  std::vector<std::string> items;
  std::vector<Node> body;
  std::string emitted_config;  // how it was written
};
struct Prog {
  std::vector<Node> nodes;
};

struct Result {
  bool ok = true, too_big = false;
  std::string out, why;
};

// --- evaluator ---
struct Ctx {
  std::map<std::string, std::string> vals;
  std::map<std::string, std::int64_t> ranges;
  bool Has(const std::string& n) const { return vals.count(n) > 0 || ranges.count(n) > 0; }
};
struct Eval {
  Ctx c;
  std::string why;
  bool too_big = false, unjudged = false;
  std::size_t budget = 60000;
  bool Fail(const std::string& w) { why = w; return false; }
  bool Put(std::string& o, const std::string& s) {
    if (s.size() + 1 > budget) { too_big = true; return Fail("too big"); }
    budget -= s.size() + 1;
    o += s;
    return true;
  }
  bool Number(const Num& n, const Scope& s, std::int64_t& out) {
    if (n.ref.empty()) { out = n.n; return n.n >= INT_MIN && n.n <= INT_MAX ? true : Fail("number out of range"); }
    const std::string* v = nullptr;
    if (const auto it = s.vals.find(n.ref); it != s.vals.end()) { v = &it->second; }
    else if (s.secs.count(n.ref) > 0) { return Fail("a section used as a number"); }
    else if (const auto i2 = c.vals.find(n.ref); i2 != c.vals.end()) { v = &i2->second; }
    else if (const auto i3 = c.ranges.find(n.ref); i3 != c.ranges.end()) { out = i3->second; return true; }
    else { return Fail("unknown name used as a number"); }
    std::size_t k = !v->empty() && (*v)[0] == '-' ? 1 : 0;
    if (v->size() == k || v->size() > k + 10) { return Fail("a value that is not a number used as one"); }
    std::int64_t x = 0;
    for (; k < v->size(); ++k) {
      if ((*v)[k] < '0' || (*v)[k] > '9') { return Fail("a value that is not a number used as one"); }
      x = x * 10 + ((*v)[k] - '0');
    }
    if ((*v)[0] == '-') { x = -x; }
    if (x < INT_MIN || x > INT_MAX) { return Fail("a value that is not a number used as one"); }
    out = x;
    return true;
  }
  bool JoinOf(const Join& j, const Scope& s, std::string& out) {
    if (j.k == Join::kNone) { return true; }
    if (j.k == Join::kLiteral) { out = j.s; return true; }
    if (const auto it = s.vals.find(j.s); it != s.vals.end()) { out = it->second; return true; }
    if (s.secs.count(j.s) > 0) { return Fail("a section used as a join"); }
    if (const auto it = c.vals.find(j.s); it != c.vals.end()) { out = it->second; return true; }
    if (c.ranges.count(j.s) > 0) { return Fail("a range used as a join"); }
    return Fail("unknown name used as a join");
  }
  bool Run(const std::vector<Node>& ns, const Scope& s, std::string& out) {
    for (const Node& n : ns) {
      if (!One(n, s, out)) { return false; }
      // Lines end with a newline; a join behind the last one changes what stands alone on a line.
      if (n.block && !out.empty() && out.back() != '\n') { unjudged = true; }
    }
    return true;
  }
  bool One(const Node& n, const Scope& s, std::string& out) {
    switch (n.kind) {
      case Kind::kText: return Put(out, n.text);
      case Kind::kComment: return true;
      case Kind::kValue: {
        if (const auto it = s.vals.find(n.name); it != s.vals.end()) { return Put(out, it->second); }
        if (s.secs.count(n.name) > 0) { return Fail("a section used as a value"); }
        if (const auto it = c.vals.find(n.name); it != c.vals.end()) { return Put(out, it->second); }
        if (const auto it = c.ranges.find(n.name); it != c.ranges.end()) { return Put(out, std::to_string(it->second)); }
        return Put(out, "{{" + n.name + "}}");
      }
      case Kind::kControl:
        if (s.Has(n.name)) { return Fail("a control tag over a template tag"); }
        if (c.ranges.count(n.name) > 0) { return Fail("a control tag over a running range"); }
        c.vals[n.name] = n.text;
        return true;
      case Kind::kSection: {
        const auto it = s.secs.find(n.name);
        if (it == s.secs.end()) {
          if (s.vals.count(n.name) > 0 || c.Has(n.name)) { return Fail("a value used as a section"); }
          return true;
        }
        std::string join;
        if (!it->second.empty() && !JoinOf(n.join, s, join)) {
          unjudged = unjudged || it->second.size() < 2;  // the join is not used
          return false;
        }
        for (std::size_t k = 0; k < it->second.size(); ++k) {
          if (k > 0 && !Put(out, join)) { return false; }
          if (!Run(n.body, it->second[k], out)) { return false; }
        }
        return true;
      }
      case Kind::kRange: {
        std::int64_t a = 0, b = 0, step = 1;
        std::string join;
        if (!Number(n.from, s, a) || !Number(n.to, s, b) || (n.has_step && !Number(n.step, s, step)) || !JoinOf(n.join, s, join)) { return false; }
        if (step == 0) { return Fail("step 0"); }
        if (c.Has(n.name)) { return Fail("a range over an existing name"); }
        if (s.Has(n.name)) { return Fail("a range over a template tag"); }
        std::size_t turns = 0;
        for (std::int64_t x = a; step > 0 ? x <= b : x >= b; x += step) {
          c.ranges[n.name] = x;
          if (x != a && !Put(out, join)) { return false; }
          if (!Run(n.body, s, out)) { return false; }
          if (++turns > 5000) { too_big = true; return Fail("too big"); }
        }
        c.ranges.erase(n.name);
        return true;
      }
      case Kind::kList: {
        std::string join;
        if (!JoinOf(n.join, s, join)) { return false; }
        if (s.Has(n.name) || c.Has(n.name)) { return Fail("a list over an existing name"); }
        for (std::size_t k = 0; k < n.items.size(); ++k) {
          c.vals[n.name] = n.items[k];
          if (k > 0 && !Put(out, join)) { return false; }
          if (!Run(n.body, s, out)) { return false; }
        }
        c.vals.erase(n.name);
        return true;
      }
    }
    return true;
  }
};
inline Result Evaluate(const Prog& p, const Scope& s, const std::map<std::string, std::string>& context) {
  Eval e;
  e.c.vals = context;
  Result r;
  r.ok = e.Run(p.nodes, s, r.out);
  r.why = e.why;
  r.too_big = e.too_big || e.unjudged;
  return r;
}

// --- generator and writer ---
inline const std::vector<std::string> kValues = {"a", "b", "Name_1", "_v", "long_value_name"};
inline const std::vector<std::string> kNumbers = {"n1", "n2", "start", "end"};
inline const std::vector<std::string> kSections = {"sec", "item", "Row", "p_q"};
inline const std::vector<std::string> kLoops = {"i", "j", "k"};
inline const std::vector<std::string> kLists = {"x", "y"};
inline const std::vector<std::string> kControls = {"c1", "c2", "sep"};

struct Gen {
  vh::Rng& r;
  bool ini = false;
  std::map<std::string, std::uint64_t> kinds;
  std::vector<std::string> open;  // names of open section tags

  std::string AnyName() {
    switch (r.Below(7)) {
      case 0: return r.Pick(kValues);
      case 1: return r.Pick(kNumbers);
      case 2: return r.Pick(kSections);
      case 3: return r.Pick(kLoops);
      case 4: return r.Pick(kLists);
      case 5: return r.Pick(kControls);
      default: return r.Of<std::string>({"unknown", "A", "zz9"});
    }
  }
  std::string Name(const std::vector<std::string>& pool) { return r.Chance(1, 24) ? AnyName() : r.Pick(pool); }
  std::string RandValue() {
    if (ini) { return r.Of<std::string>({"v", "some words", "{{a}}", "{{#sec}}x{{/sec}}", "x,y;z", "}}", "7", "-2", "\xc3\xa4", "[1,2]", "\"q\"", "a.b:c"}); }
    switch (r.Below(6)) {
      case 0: return r.Of<std::string>({"{{a}}", "{{b}}{{Name_1}}", "{{#sec}}", "{{/sec}}", "{{#i=1;3}}{{i}}{{/i}}", "{{", "}}", "{", "{{c1=evil}}", "{{#a=}}", "{{x"});
      case 1: return r.Of<std::string>({"", "\n", " \n  ", "line\nline\n", "\t", "\r\n", "\xc3\xa4\xe2\x82\xac", "\\n", "'\"", "$1", "\\1", "&"});
      case 2: return std::string(r.Range(1, 40), 'q');
      case 3: return std::to_string(static_cast<std::int64_t>(r.Below(9)) - 3);
      default: return "v" + std::to_string(r.Below(1000));
    }
  }
  std::string RandNumber() {
    if (r.Chance(1, 16)) { return r.Of<std::string>({"x", "1x", "--1", "99999999999", "0x2", "1.5"}); }
    return std::to_string(static_cast<std::int64_t>(r.Below(9)) - 3);
  }
  Scope RandScope(unsigned depth, bool root = false) {
    Scope s;
    for (const auto& n : kValues) { if (r.Coin()) { s.vals[n] = RandValue(); } }
    for (const auto& n : kNumbers) { if (r.Coin()) { s.vals[n] = RandNumber(); } }
    if (r.Chance(1, 3)) { s.vals["sep"] = RandValue(); }
    if (r.Chance(1, 16)) { s.vals[AnyName()] = RandValue(); }
    if (s.vals.empty() || ini) { s.vals["keep"] = "kept"; }
    if (depth > 0) {
      for (const auto& n : kSections) {
        if (s.vals.count(n) == 0 && r.Chance(root ? 4 : 2, 6)) {
          for (std::size_t k = r.Of<std::size_t>({1, 1, 2, 2, 3, 5}); k > 0; --k) { s.secs[n].push_back(RandScope(depth - 1)); }
        }
      }
    }
    return s;
  }
  // Text without a newline at its start, holding no tag whatever follows.
  std::string RandText() {
    std::string t;
    for (std::size_t n = r.Range(1, 3); n > 0; --n) {
      t += r.Of<std::string>({"abc", "x y", "{{ a}}", "{{}}", "{{1a}}", "{{-}}", "{ {a}}", "}}", "{{a }}.", "{{#}}", "{{/zz}}", "}", "]", "\xc3\xa9", "a=b;c", "{{a-b}}", "{{#9=}}", "..", "(\\)", "{{{{", "{{a!"});
      t += r.Of<std::string>({".", " ", "  ", "-", "\t.", ",\n ", "\n\n", "|"});
    }
    if (t[0] == '\n') { t = "." + t; }
    if (r.Chance(1, 8)) { t += r.Of<std::string>({"{", "{{#", "{{", "{{/"}); }
    return t;
  }
  Join RandJoin() {
    Join j;
    if (r.Chance(1, 3)) { return j; }
    if (r.Chance(1, 4)) {
      j.k = Join::kRef;
      j.s = r.Chance(1, 4) ? AnyName() : r.Of<std::string>({"sep", "sep", "c1", "a", "n1"});
    } else {
      j.k = Join::kLiteral;
      j.s = r.Of<std::string>({",", ", ", ";", "\n", "; ", "\"", "'", "\\", "{{a}}", "}}", "[1]", "\t", "-", " ", "\xc3\xa4", "==", "a;b;c"});
    }
    return j;
  }
  Num RandNum() {
    if (r.Chance(1, 3)) { return {r.Chance(1, 5) ? AnyName() : r.Coin() ? r.Pick(kNumbers) : r.Pick(kLoops), 0}; }
    if (r.Chance(1, 64)) { return {"", 99999999999LL}; }
    return {"", static_cast<std::int64_t>(r.Below(10)) - 4};
  }
  bool IsOpen(const std::string& n) const { return std::find(open.begin(), open.end(), n) != open.end(); }

  Node RandTag(unsigned depth, bool block) {
    Node n;
    n.block = block;
    if (block) {
      n.indent_start = r.Of<const char*>({"", "", "  ", "\t"});
      n.indent_end = r.Of<const char*>({"", "", "  ", "\t "});
    }
    switch (depth == 0 ? 5 + r.Below(2) : r.Below(7)) {
      case 0:
      case 1:
        n.kind = Kind::kSection;
        n.name = Name(kSections);
        n.join = RandJoin();
        break;
      case 2:
      case 3:
        n.kind = Kind::kRange;
        n.name = Name(kLoops);
        n.from = RandNum();
        n.to = RandNum();
        n.has_step = r.Chance(1, 3);
        if (n.has_step) {
          n.step = r.Chance(1, 4) ? RandNum() : Num{"", r.Of<std::int64_t>({1, 2, 3, -1, -2, 7})};
        }
        n.join = RandJoin();
        break;
      case 4:
        n.kind = Kind::kList;
        n.name = Name(kLists);
        for (std::size_t k = r.Range(1, 4); k > 0; --k) {
          n.items.push_back(r.Of<std::string>({"1", "two", "a,b", "[x]", "{y}", "}}", "q r", "\n", "\"", "'", "\\", ";", "{{a}}", "\xc3\xa4", "x=1", "tab\t", "0"}));
        }
        n.join = RandJoin();
        break;
      case 5:
        n.kind = Kind::kControl;
        n.name = Name(kControls);
        n.text = r.Of<std::string>({"1", "3", "x", "some text", "a;b", "[1,2]", "{b", "}c", "{{", "0", "-2", "\xc3\xa4", "x=y", ":", "two\nlines", "{{a"});
        return n;
      default:
        n.kind = Kind::kComment;
        n.name = r.Coin() ? Name(kSections) : std::string("comment");
        if (IsOpen(n.name)) { n.name = "note"; }
        n.text = r.Of<std::string>({"", "text", "{{a}}", "{{#open}}", "{{/other}} x", "{{#i=1;99999999}}{{i}}", "a {{c1=9}} b", "{{#i=1;x;0}}..."});
        return n;
    }
    if (IsOpen(n.name)) {
      n = Node{};
      n.kind = Kind::kComment;
      n.block = block;
      n.name = "note";
      n.text = "instead";
      return n;
    }
    open.push_back(n.name);
    n.body = block ? Lines(depth - 1) : Inline(depth - 1);
    open.pop_back();
    return n;
  }
  static bool Guarded(const Node& n) { return n.kind != Kind::kText && n.kind != Kind::kValue; }
  std::vector<Node> Inline(unsigned depth) {
    std::vector<Node> v;
    bool text = false;
    for (std::size_t n = r.Below(5); n > 0; --n) {
      Node x;
      switch (r.Below(6)) {
        case 0:
        case 1:
          if (text) { continue; }
          x.text = RandText();
          break;
        case 2:
        case 3:
          x.kind = Kind::kValue;
          x.name = r.Chance(1, 3) ? AnyName() : r.Coin() ? r.Pick(kValues) : r.Coin() ? r.Pick(kLoops) : r.Coin() ? r.Pick(kLists) : r.Pick(kControls);
          break;
        default: x = RandTag(depth, false); break;
      }
      text = x.kind == Kind::kText;
      v.push_back(x);
    }
    return v;
  }
  // Whole lines.
  std::vector<Node> Lines(unsigned depth) {
    std::vector<Node> v;
    for (std::size_t n = r.Range(1, 4); n > 0; --n) {
      if (r.Chance(2, 5)) {
        v.push_back(RandTag(depth, true));
        continue;
      }
      std::vector<Node> in = Inline(depth);
      Node end;
      end.text = in.empty() || (in.back().kind == Kind::kValue && r.Coin()) ? "\n" : ".\n";
      for (Node& x : in) { v.push_back(std::move(x)); }
      if (!v.empty() && v.back().kind == Kind::kText && !in.empty()) { v.back().text += "!\n"; }
      else { v.push_back(end); }
    }
    return v;
  }
  Prog RandProg() {
    Prog p;
    p.nodes = r.Coin() ? Lines(3) : Inline(3);
    if (r.Chance(1, 4)) {
      Node sep;
      sep.text = ".";
      p.nodes.push_back(sep);  // texts next to each other could make up a tag
      for (Node& x : Lines(2)) { p.nodes.push_back(x); }
      // An inline start joined by lines: the first line does not start a line any more.
      bool first_inline = true;
      for (Node& x : p.nodes) { first_inline = first_inline && !x.block; }
      if (!first_inline) { p.nodes = Lines(3); }
    }
    return p;
  }

  std::string Quote(const std::string& s) {
    const char q = r.Coin() ? '"' : '\'';
    std::string o(1, q);
    for (const char c : s) {
      if (c == '\n') { o += r.Coin() ? "\\n" : "\\x0a"; }
      else if (c == '\t') { o += "\\t"; }
      else if (c == q || c == '\\') { o += std::string("\\") + c; }
      else if (c == '}' || c == '{') { o += std::string("\\") + c; }  // "}}" would end the tag
      else { o += c; }
    }
    return o + q;
  }
  std::string Item(const std::string& s) {
    if (s.empty() || r.Coin()) { return Quote(s); }
    std::string o;
    for (const char c : s) {
      if (c == '\n') { o += "\\n"; }
      else if (c == '\t') { o += "\\t"; }
      else if (std::string(",[]{}\\\"';").find(c) != std::string::npos) { o += std::string("\\") + c; }
      else { o += c; }
    }
    return o;
  }
  std::string JoinText(const Join& j) { return j.k == Join::kNone ? "" : j.k == Join::kRef ? j.s : Quote(j.s); }
  std::string NumText(const Num& n) { return n.ref.empty() ? std::to_string(n.n) : n.ref; }
  std::string Sp() { return r.Chance(1, 12) ? " " : ""; }

  std::string Emit(const std::vector<Node>& ns) {
    std::string o;
    for (const Node& n : ns) {
      std::string conf;
      switch (n.kind) {
        case Kind::kText: o += n.text; ++kinds["text"]; continue;
        case Kind::kValue: o += "{{" + n.name + "}}"; ++kinds["value tags"]; continue;
        case Kind::kControl: o += n.indent_start + "{{" + n.name + "=" + n.text + "}}" + (n.block ? "\n" : ""); ++kinds["control tags"]; continue;
        case Kind::kComment: conf = "="; ++kinds["comments"]; break;
        case Kind::kSection:
          ++kinds["sections"];
          if (n.join.k != Join::kNone) { conf = ":" + JoinText(n.join); }
          break;
        case Kind::kRange:
          ++kinds["ranges"];
          conf = "=" + Sp() + NumText(n.from) + Sp() + ";" + Sp() + NumText(n.to);
          if (n.has_step) { conf += ";" + NumText(n.step); }
          if (n.join.k != Join::kNone) { conf += std::string(n.has_step ? "" : ";") + ";" + JoinText(n.join); }
          break;
        case Kind::kList:
          ++kinds["lists"];
          conf = "=[";
          for (std::size_t k = 0; k < n.items.size(); ++k) { conf += (k > 0 ? "," : "") + Item(n.items[k]); }
          conf += "]";
          if (n.join.k != Join::kNone) { conf += ";" + JoinText(n.join); }
          break;
      }
      o += n.indent_start + "{{#" + n.name + conf + "}}" + (n.block ? "\n" : "");
      o += n.kind == Kind::kComment ? n.text + (n.block ? "\n" : "") : Emit(n.body);
      o += n.indent_end + "{{/" + n.name + "}}" + (n.block ? "\n" : "");
    }
    return o;
  }
  std::string Emit(const Prog& p) { return Emit(p.nodes); }
};
}  // namespace mope_model
#endif  // MOPE_MODEL_H_
