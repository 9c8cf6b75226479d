// VH-SRC: mbo/digest/checksum.cc
// VH-RULE: exhaustive lines over a small alphabet with small digest lengths, every byte value in each role (digest, separator, marker, name), plus random well-formed lines, their single-byte mutations and truncations, and extreme digest lengths; acceptance and both returned parts are compared with a regular-expression oracle, and returned views must lie inside the line. A case is (line, digest length).
#include "mbo/digest/checksum.h"

#include <limits>
#include <memory>

#include "vh.h"

namespace {
bool Oracle(std::string_view line, std::size_t n, std::string& hex, std::string& name) {
  // <n hex digits> ' ' (' ' | '*') <non-empty name>
  std::size_t digits = 0;
  while (digits < line.size() && std::string_view("0123456789abcdefABCDEF").find(line[digits]) != std::string_view::npos) { ++digits; }
  if (digits < n) { return false; }
  if (line.size() <= n || line[n] != ' ') { return false; }
  if (line.size() <= n + 1 || (line[n + 1] != ' ' && line[n + 1] != '*')) { return false; }
  if (line.size() == n + 2) { return false; }
  hex = line.substr(0, n);
  name = line.substr(n + 2);
  return true;
}
void One(std::string_view line, std::size_t n) {
  // Exactly sized heap memory: a read outside is seen by the sanitizer.
  const std::unique_ptr<char[]> mem(new char[line.size()]);
  if (!line.empty()) { std::memcpy(mem.get(), line.data(), line.size()); }
  const std::string_view view(mem.get(), line.size());
  vh::Case(std::to_string(n) + " " + vh::Hex(line.substr(0, 2000)));
  const auto got = mbo::digest::internal::ParseChecksumLine(view, n);
  std::string hex, name;
  const bool want = Oracle(line, n, hex, name);
  vh::Eval();
  vh::Distinct(vh::HashAll(line, n));
  vh::Count(want ? "accepted_lines" : "rejected_lines");
  const std::string ctx = "hex_length=" + std::to_string(n) + " line=" + vh::Json(line);
  if (got.has_value() != want) { vh::Fail(want ? "rejects_well_formed" : "accepts_malformed", ctx); return; }
  if (!want) { return; }
  vh::Eq("hex", got->hex, hex, ctx);
  vh::Eq("name", got->file_name, name, ctx);
  auto inside = [&](std::string_view v) { return v.data() >= view.data() && v.data() + v.size() <= view.data() + view.size(); };
  if (!inside(got->hex) || !inside(got->file_name)) { vh::Fail("not_a_view_of_the_line", ctx); }
}
}  // namespace

void VhMain() {
  static constexpr std::string_view kAlpha = "aF0g *\n";
  std::uint64_t total = 0;
  for (std::uint64_t p = 1, len = 0; len <= 6; ++len, p *= kAlpha.size()) { total += p; }
  vh::Section("exhaustive", total, total, [](vh::Rng&, std::uint64_t i) {
    std::size_t len = 0;
    std::uint64_t p = 1;
    while (i >= p) { i -= p; p *= kAlpha.size(); ++len; }
    std::string line(len, ' ');
    for (char& c : line) { c = kAlpha[i % kAlpha.size()]; i /= kAlpha.size(); }
    for (std::size_t n = 0; n <= 5; ++n) { One(line, n); }
  });
  vh::Section("well_formed_and_mutated", 4000, 200000, [](vh::Rng& r, std::uint64_t i) {
    const std::size_t n = r.Of({std::size_t{32}, std::size_t{40}, std::size_t{56}, std::size_t{64}, std::size_t{96}, std::size_t{128}});
    std::string line = r.Text(r.Coin() ? "0123456789abcdef" : "0123456789ABCDEFabcdef", n) + ' ' + (r.Coin() ? ' ' : '*');
    switch (r.Below(4)) {
      case 0: line += r.Text(" *\t/.ab", 1 + r.Below(9)); break;
      case 1: line += r.Bytes(1 + r.Below(30)); break;
      default: line += "dir/" + r.Text("abc.", 1 + r.Below(20)); break;
    }
    if (i < 3) { vh::SampleText(line); }
    One(line, n);
    for (int k = 0; k < 12; ++k) {
      std::string m = line;
      switch (r.Below(5)) {
        case 0: m[r.Below(n + 2)] = static_cast<char>(r.Next()); break;
        case 1: m.resize(r.Below(m.size() + 1)); break;
        case 2: m.erase(r.Below(n + 2), 1); break;
        case 3: m.insert(r.Below(n + 3), 1, r.Of({' ', '*', 'a', '0', 'g', '\0', '\xE9'})); break;
        default: m[r.Below(n)] = r.Of({'g', 'G', '`', '@', ':', '/', ' ', '-', '+', 'x', '\xFF', '\x00'}); break;
      }
      One(m, n);
    }
  });
  // Every byte value at every position of a short line, and as the whole name.
  vh::Section("every_byte", 256 * 6, 256 * 6, [](vh::Rng& r, std::uint64_t i) {
    const char c = static_cast<char>(i % 256);
    for (const std::size_t n : {std::size_t{4}, std::size_t{32}, std::size_t{128}}) {
      const std::string head = r.Text("0123456789abcdef", n);
      const std::string sep = i % 2 == 0 ? "  " : " *";
      const std::string name = i / 256 % 2 == 0 ? std::string(1, 'x') : "some name";
      switch (i / 256) {
        case 0: One(head + sep + c, n); break;
        case 1: One(head + c + sep.substr(1) + name, n); break;
        case 2: One(head + sep.substr(0, 1) + c + name, n); break;
        case 3: { std::string h = head; h[r.Of({std::size_t{0}, n - 1, r.Below(n)})] = c; One(h + sep + name, n); break; }
        case 4: One(head + sep + c + name, n); One(head + sep + name + c, n); break;
        default: One(head + sep + c + c, n); One(c + head + sep + name, n); break;
      }
    }
  });
  vh::Section("extreme_lengths", 300, 3000, [](vh::Rng& r, std::uint64_t) {
    const std::string line = r.Text("ab0 *", r.Below(12));
    for (const std::size_t n : {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max() - 1, std::numeric_limits<std::size_t>::max() - 2, std::numeric_limits<std::size_t>::max() - 3, line.size(), line.size() + 1, std::size_t{1} << 63U, static_cast<std::size_t>(r.Next())}) {
      const auto got = mbo::digest::internal::ParseChecksumLine(line, n);
      vh::Eval();
      if (n >= line.size() && got.has_value()) { vh::Fail("accepts_overlong", line + " " + std::to_string(n)); }
    }
    One(line, r.Below(8));
  });
}
