// VH-SRC: mbo/strings/indent.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: all texts up to length 7 over {a, space, tab, newline}, longer random texts built from lines with shared, shorter, longer and differing indentations (tabs against spaces, blank and whitespace-only lines, CR and NUL inside lines, with and without a final newline); an independent line by line definition as the oracle; returned views must lie inside the text or be empty
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/strings/indent.h"
#include "vh.h"

namespace {
std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> r(1);
  for (const char c : t) {
    if (c == '\n') { r.emplace_back(); } else { r.back() += c; }
  }
  return r;
}
bool White(const std::string& s) { return s.find_first_not_of(" \t") == std::string::npos; }
// What indent.h documents.
std::vector<std::string> Want(const std::string& text) {
  std::vector<std::string> lines = Lines(text);
  std::size_t first = 1;  // The line which determines the indent.
  if (lines.size() > 1 && lines[0].empty()) {
    lines.erase(lines.begin());
    first = 0;
  }
  if (first >= lines.size()) { return lines; }  // A single line of text has nothing to remove.
  std::string indent;
  for (const char c : lines[first]) {
    if (c != ' ' && c != '\t') { break; }
    indent += c;
  }
  for (std::size_t i = first; i < lines.size(); ++i) {
    if (i + 1 == lines.size() && White(lines[i])) { lines[i].clear(); continue; }
    if (lines[i].compare(0, indent.size(), indent) == 0) { lines[i].erase(0, indent.size()); }
  }
  return lines;
}
void One(const std::string& text) {
  vh::Case(vh::Json(text));
  const std::unique_ptr<char[]> mem(new char[text.size()]);
  std::memcpy(mem.get(), text.data(), text.size());
  const std::string_view view(mem.get(), text.size());
  const std::vector<std::string> want = Want(text);
  const std::vector<std::string_view> got = mbo::strings::DropIndentAndSplit(view);
  const auto ctx = [&] {
    std::string s = "text " + vh::Json(text) + " lines [";
    for (const auto& l : got) { s += vh::Json(l) + " "; }
    s += "] want [";
    for (const auto& l : want) { s += vh::Json(l) + " "; }
    return s + "]";
  };
  bool same = got.size() == want.size();
  for (std::size_t i = 0; same && i < want.size(); ++i) { same = got[i] == want[i]; }
  vh::Check(same, "lines", ctx);
  for (const std::string_view l : got) {
    vh::Check(l.empty() || (l.data() >= view.data() && l.data() + l.size() <= view.data() + view.size()), "views", ctx);
  }
  std::string joined;
  for (std::size_t i = 0; i < want.size(); ++i) { joined += (i == 0 ? "" : "\n") + want[i]; }
  if (text == "\n") { joined = "\n"; }  // Documented by a test: a lone newline stays.
  vh::Eq("text", mbo::strings::DropIndent(view), joined, "text " + vh::Json(text));
  if (want.size() > 1) { vh::Count("several_lines"); }
  vh::Count("lines", want.size());
  vh::Eval();
  vh::Distinct(vh::HashAll(text));
}
}  // namespace

void VhMain() {
  vh::Once("short", [](vh::Rng&) {
    const std::size_t max = vh::Thorough() ? 9 : 7;
    for (std::size_t n = 0; n <= max; ++n) {
      for (std::size_t k = 0; k < (std::size_t{1} << (2 * n)); ++k) {
        std::string t;
        for (std::size_t i = 0; i < n; ++i) { t += "a \t\n"[(k >> (2 * i)) & 3U]; }
        One(t);
      }
    }
  });
  vh::Section("lines", 20000, 2000000, [](vh::Rng& r, std::uint64_t i) {
    const std::string base = r.Text(" \t", r.Below(6));
    std::string text;
    if (r.Chance(2, 3)) { text += "\n"; }
    const std::size_t n = r.Below(r.Chance(1, 20) ? 200 : 8);
    for (std::size_t k = 0; k < n; ++k) {
      switch (r.Below(10)) {
        case 0: break;
        case 1: text += r.Text(" \t", r.Below(7)); break;
        case 2: text += base; break;
        case 3: text += base.substr(0, r.Below(base.size() + 1)) + "x" + r.Text(" \tx", r.Below(9)); break;
        case 4: text += r.Text(" \t", r.Below(7)) + r.Text("ab \t", r.Below(9)); break;
        case 5: text += base + r.Text(" \t", r.Below(3)) + "y" + r.Text("\r\v\f \xC2\xA0", r.Below(4)); break;
        case 7: text += r.Text(" \t", r.Below(4)) + r.Text("\r\v\f \t", r.Below(4)); break;
        case 6: text += base + std::string("\0z", 2) + r.Bytes(r.Below(9)); break;
        default: text += base + r.Text(" \t", r.Below(3)) + r.Text("abc def", r.Below(20)); break;
      }
      if (k + 1 < n || r.Coin()) { text += '\n'; }
    }
    if (r.Chance(1, 4)) { text += r.Text(r.Chance(1, 3) ? " \t\r" : " \t", r.Below(5)); }
    One(text);
    if (i % 5001 == 7) { vh::SampleText(vh::Json(text)); }
  });
}
