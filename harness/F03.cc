// VH-SRC: mbo/file/ini/ini_file.cc mbo/file/file.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random INI texts (headers, comments, assignments, blank and whitespace-only lines, CRLF, duplicate groups and keys, brackets, semicolons, hashes and equal signs everywhere) parsed from memory and from a file, compared with a line by line reference; random data sets the format can represent written and read back; every look-up function with and without outer whitespace compared with a map of maps
#include <filesystem>
#include <map>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/file/file.h"
#include "mbo/file/ini/ini_file.h"
#include "vh.h"

namespace {
namespace fs = std::filesystem;
using mbo::file::IniFile;
using Model = std::map<std::string, std::map<std::string, std::string>>;

std::string Trim(const std::string& s) {
  static const char* kSpace = " \t\n\v\f\r";
  const auto a = s.find_first_not_of(kSpace);
  return a == std::string::npos ? "" : s.substr(a, s.find_last_not_of(kSpace) - a + 1);
}
Model Reference(const std::string& text) {
  Model m;
  std::string group, line;
  for (std::size_t i = 0; i <= text.size(); ++i) {
    if (i < text.size() && text[i] != '\n') { line += text[i]; continue; }
    const std::string l = Trim(line);
    line.clear();
    if (l.empty() || l[0] == ';' || l[0] == '#') { continue; }
    if (l[0] == '[' && l.back() == ']') { group = Trim(l.substr(1, l.size() - 2)); continue; }
    const auto eq = l.find('=');
    const std::string key = Trim(l.substr(0, eq)), val = eq == std::string::npos ? "" : Trim(l.substr(eq + 1));
    m[group][key] = val;
  }
  return m;
}
std::string Show(const Model& m) {
  std::string s;
  for (const auto& [g, kv] : m) { s += "[" + g + "]{"; for (const auto& [k, v] : kv) { s += k + "=" + v + ";"; } s += "} "; }
  return vh::Json(s);
}
Model All(const IniFile& ini) {
  Model m;
  for (const std::string& g : ini.GetGroups()) { for (const auto& [k, v] : ini.GetGroupData(g)) { m[g][k] = v; } }
  return m;
}
std::string Pad(vh::Rng& r, const std::string& s) { return r.Text(" \t", r.Below(3)) + s + r.Text(" \t\r", r.Below(3)); }
void Compare(vh::Rng& r, const IniFile& ini, const Model& want, const std::string& ctx) {
  vh::Check(All(ini) == want, "data", [&] { return ctx + " gives " + Show(All(ini)) + " want " + Show(want); });
  std::size_t n = 0;
  for (const auto& [g, kv] : want) {
    n += kv.size();
    const auto got = ini.GetGroupData(Pad(r, g));
    vh::Check(std::map<std::string, std::string>(got.begin(), got.end()) == kv, "group_data", [&] { return ctx + " group " + vh::Json(g); });
    for (const auto& [k, v] : kv) {
      const std::string pg = Pad(r, g), pk = Pad(r, k);
      const IniFile::GroupKey key{.group = pg, .key = pk};
      const auto s = ini.GetKeyOrStatus(key);
      vh::Check(ini.HasKey(key) && s.ok() && *s == v && ini.GetKeyOrDefault(key, "??") == v, "lookup", [&] { return ctx + " [" + g + "] " + k; });
    }
  }
  vh::Eq("size", ini.size(), n, ctx);
  vh::Eq("empty", ini.empty(), want.empty(), ctx);
  std::vector<std::string> groups;
  for (const auto& g : ini.GetGroups()) { groups.push_back(g); }
  std::vector<std::string> want_groups;
  for (const auto& [g, kv] : want) { want_groups.push_back(g); }
  vh::Check(groups == want_groups, "groups", ctx);
  // Something that is not there.
  for (int i = 0; i < 3; ++i) {
    const std::string g = r.Coin() && !want.empty() ? std::next(want.begin(), static_cast<long>(r.Below(want.size())))->first : r.Text("abg", r.Below(3));
    const std::string k = r.Text("abk", r.Below(3));
    const auto it = want.find(g);
    const bool has = it != want.end() && it->second.count(k) != 0;
    const std::string def = r.Text("def", r.Below(3));
    vh::Check(ini.HasKey({.group = g, .key = k}) == has && ini.GetKeyOrStatus({.group = g, .key = k}).ok() == has && ini.GetKeyOrDefault({.group = g, .key = k}, def) == (has ? it->second.at(k) : def), "missing", [&] { return ctx + " [" + g + "] " + k; });
    vh::Check(has || ini.GetKeyOrStatus({.group = g, .key = k}).status().code() == absl::StatusCode::kNotFound, "missing_code", ctx);
    if (it == want.end()) { vh::Check(ini.GetGroupData(g).empty(), "missing_group", ctx); }
  }
  vh::Eval();
}
std::string Line(vh::Rng& r) {
  switch (r.Below(14)) {
    case 0: return "";
    case 1: return r.Text(" \t\r\v\f", r.Below(4));
    case 2: return Pad(r, r.Of<std::string>({";", "#", "; c=d", "# [g]", ";[x]", "#="}));
    case 3: case 4: return Pad(r, "[" + Pad(r, r.Text("abg", r.Below(3))) + "]");
    case 5: return Pad(r, r.Of<std::string>({"[", "]", "[]", "[a", "a]", "[[a]]", "[a]]", "[a=b]", "[a]=b", "[a]b", "[;]", "[a];", "[ ]", "[a]#c"}));
    case 6: return Pad(r, "=" + r.Text("ab=", r.Below(3)));
    case 7: return Pad(r, r.Text("abk", 1 + r.Below(3)));
    case 8: return r.Bytes(r.Below(8));
    case 9: return Pad(r, r.Text("ab", 1) + "=" + r.Of<std::string>({";c", "#c", "[g]", "a=b", "a ; b", "\"q\"", " x y "}));
    default: return Pad(r, Pad(r, r.Text("abk", 1 + r.Below(2))) + "=" + Pad(r, r.Text("v 01", r.Below(6))));
  }
}
// A text the format can carry as group, key or value.
std::string Word(vh::Rng& r, bool key) {
  while (true) {
    std::string s = r.Chance(1, 5) ? r.Bytes(r.Below(8)) : r.Text("ab .:[];#=\"'\\", r.Below(8));
    std::erase(s, '\n');
    if (key) { std::erase(s, '='); }
    s = Trim(s);
    return s;
  }
}
}  // namespace

void VhMain() {
  const fs::path root = fs::path(vh::E().scratch) / "F03";
  fs::create_directories(root);
  const std::string name = (root / "x.ini").native();
  vh::Section("parse", 15000, 1500000, [&](vh::Rng& r, std::uint64_t i) {
    std::string text;
    for (std::uint64_t n = r.Below(14); n > 0; --n) { text += Line(r) + (n > 1 || r.Coin() ? r.Of<std::string>({"\n", "\n", "\n", "\r\n", "\n\n"}) : ""); }
    vh::Case(vh::Json(text));
    const Model want = Reference(text);
    Compare(r, IniFile::Parse(text), want, "text " + vh::Json(text));
    vh::Count("keys", want.size());
    vh::Distinct(vh::HashAll(text));
    if (i % 10 == 0) {
      mbo::file::SetContents(name, text).IgnoreError();
      const auto read = IniFile::Read(name);
      if (vh::Check(read.ok(), "read", text)) { Compare(r, *read, want, "file " + vh::Json(text)); }
      // What was read can be written and read again, unless it has no representation.
      bool plain = true;
      for (const auto& [g, kv] : want) { for (const auto& [k, v] : kv) { const std::string l = k + "=" + v; plain = plain && !(l.front() == '[' && l.back() == ']') && (k.empty() || (k[0] != ';' && k[0] != '#')); } }
      if (read.ok() && plain) {
        vh::Check(read->Write(name).ok(), "write", text);
        const auto again = IniFile::Read(name);
        vh::Check(again.ok() && All(*again) == want, "write_read", [&] { return vh::Json(text) + " reads again as " + (again.ok() ? Show(All(*again)) : "an error"); });
        vh::Count("rewritten");
      }
    }
    if (i % 4001 == 1) { vh::SampleText(vh::Json(text)); }
  });
  vh::Section("set_write_read", 3000, 300000, [&](vh::Rng& r, std::uint64_t) {
    IniFile ini = IniFile::NewEmpty();
    Model want;
    std::string ctx;
    for (std::uint64_t n = r.Below(14); n > 0; --n) {
      const std::string g = r.Coin() ? r.Text("gh", r.Below(2)) : Word(r, false), k = r.Coin() ? r.Text("kl", r.Below(2)) : Word(r, true);
      std::string v = Word(r, false);
      const std::string pg = Pad(r, g), pk = Pad(r, k);
      const IniFile::GroupKey key{.group = pg, .key = pk};
      const std::string l = k + "=" + v;
      if ((l.front() == '[' && l.back() == ']') || (!k.empty() && (k[0] == ';' || k[0] == '#'))) { continue; }  // Would read as something else.
      switch (r.Below(4)) {
        case 0: { const int num = static_cast<int>(r.Next()); v = std::to_string(num); ini.SetKey(key, num); break; }
        case 1: ini.SetKey(key, std::string_view(v)); break;
        case 2: v = v.c_str(); v = Trim(v); ini.SetKey(key, v.c_str()); break;
        default: ini.SetKey(key, std::string(v)); break;
      }
      if ((k + "=" + v).front() == '[' && (k + "=" + v).back() == ']') { return; }
      want[g][k] = v;
      ctx += "[" + g + "] " + k + "=" + v + " | ";
    }
    vh::Case(vh::Json(ctx));
    Compare(r, ini, want, vh::Json(ctx));
    mbo::file::SetContents(name, std::string(3000, 'x') + "\n[old]\nold=1\n").IgnoreError();
    vh::Check(ini.Write(name).ok(), "write", ctx);
    const auto read = IniFile::Read(name);
    if (vh::Check(read.ok(), "read", ctx)) { Compare(r, *read, want, "written " + vh::Json(ctx)); vh::Count("written_and_read"); }
    vh::Distinct(vh::HashAll(ctx));
  });
  vh::Once("errors", [&](vh::Rng&) {
    vh::Check(!IniFile::Read((root / "none.ini").native()).ok(), "missing_file", "reading a missing file succeeds");
    vh::Check(!IniFile::Read(root.native()).ok(), "directory", "reading a directory succeeds");
    vh::Check(!IniFile::NewEmpty().Write((root / "no/dir.ini").native()).ok(), "write_error", "writing into a missing directory succeeds");
  });
  fs::remove_all(root);
}
