// VH-SRC: mbo/file/glob.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: random directory trees (files of various sizes, directories, symbolic links to files, directories, nowhere and themselves, fifos; names with blanks, newlines and wildcard characters) walked with random patterns derived from an existing entry or made up, all options, every spelling of the root (absolute, relative, unnormalised, empty), and by GlobSplit of root and pattern; compared with an independent walk by opendir/lstat and the matcher of F04; callbacks that stop, fail, do not descend or remove entries at a random point; unreadable directories (as an unprivileged user)
// VH-ASSUME: the regular expression engine (a PCRE2 based stand-in for RE2, see DESIGN.md) matches regular expressions correctly
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/file/glob.h"
#include "ref_glob.h"
#include "vh.h"

namespace {
namespace fs = std::filesystem;
using mbo::file::GlobEntry;
using mbo::file::GlobEntryAction;
using mbo::file::GlobOptions;

struct Node {
  struct stat l {};
  struct stat s {};
  bool s_ok = false;
  int depth = 0;
};
using Tree = std::map<std::string, Node>;
void Walk(const std::string& root, const std::string& rel, int depth, bool recursive, Tree& t) {
  DIR* d = opendir((root + (rel.empty() ? "" : "/") + rel).c_str());
  if (d == nullptr) { return; }
  std::vector<std::string> names;
  while (const dirent* e = readdir(d)) {
    if (std::string_view(e->d_name) != "." && std::string_view(e->d_name) != "..") { names.emplace_back(e->d_name); }
  }
  closedir(d);
  for (const std::string& n : names) {
    const std::string r = rel.empty() ? n : rel + "/" + n;
    Node node;
    lstat((root + "/" + r).c_str(), &node.l);
    node.s_ok = stat((root + "/" + r).c_str(), &node.s) == 0;
    node.depth = depth;
    const bool dir = S_ISDIR(node.l.st_mode);
    t.emplace(r, node);
    if (dir && recursive) { Walk(root, r, depth + 1, recursive, t); }
  }
}
std::string Name(vh::Rng& r) {
  static const char* kNames[] = {"a", "b", "ab", "foo", "foo.cc", "foo.h", "x.y", ".hid", "..x", "...", "...y", "dir", "a b", "1", "10", "B", "f[1]", "s*r", "q?", "new\nline", "back\\slash", "$d", "^c", "{x,y}", "a+b", "(p|q)", "\xC3\xA9", "tail ", "-n", "!no"};
  return r.Chance(1, 2) ? std::string(kNames[r.Below(6)]) : std::string(r.Pick(kNames));
}
void Make(vh::Rng& r, const std::string& dir, int depth) {
  const std::size_t n = depth == 0 ? 1 + r.Below(7) : r.Below(5);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string p = dir + "/" + Name(r);
    struct stat st {};
    if (lstat(p.c_str(), &st) == 0) { continue; }
    switch (r.Below(9)) {
      case 0: case 1: case 2: if (depth < 4) { mkdir(p.c_str(), 0755); Make(r, p, depth + 1); break; } [[fallthrough]];
      case 3: case 4: case 5: { std::ofstream f(p); f << std::string(r.Coin() ? r.Below(3) : r.Below(5000), 'x'); break; }
      case 6: if (symlink(r.Of({"foo", "a", ".", "..", "/nowhere/at/all", "../foo.cc"}), p.c_str()) != 0) { vh::Count("no_symlink"); } break;
      case 7: if (symlink(p.substr(p.rfind('/') + 1).c_str(), p.c_str()) != 0) { vh::Count("no_symlink"); } break;  // loop
      default: mkfifo(p.c_str(), 0644); break;
    }
  }
}
std::string EscapeText(vh::Rng& r, std::string_view s) {
  std::string o;
  for (char c : s) {
    if (std::string_view("*?[\\").find(c) != s.npos || (c != '/' && c > 0 && r.Chance(1, 10))) { o += '\\'; }
    o += c;
  }
  return o;
}
// A pattern that matches `path`, and probably others.
std::string Generalize(vh::Rng& r, const std::string& path) {
  std::string out;
  std::size_t i = 0;
  while (i <= path.size()) {
    std::size_t e = path.find('/', i);
    if (e == path.npos) { e = path.size(); }
    const std::string comp = path.substr(i, e - i);
    std::string c;
    switch (r.Below(7)) {
      case 0: c = "*"; break;
      case 1: c = "**"; break;
      case 2: {
        for (std::size_t k = 0; k < comp.size(); ++k) {
          const char ch = comp[k];
          if (r.Chance(1, 3) && ch > 0) { c += "?"; }
          else if (r.Chance(1, 4) && ch > 0 && ch != '\\' && ch != ']' && ch != '^' && ch != '!' && ch != '-' && ch != '[') { c += std::string("[") + ch + "zq]"; }
          else { c += EscapeText(r, std::string_view(comp).substr(k, 1)); }
        }
        break;
      }
      case 3: { const std::size_t k = r.Below(comp.size() + 1); c = EscapeText(r, comp.substr(0, k)) + "*"; if (k < comp.size() && comp[k] < 0) { c = "*"; } break; }
      default: c = EscapeText(r, comp); break;
    }
    out += (i == 0 ? "" : "/") + c;
    i = e + 1;
  }
  if (r.Chance(1, 12)) { out += "/"; }
  if (r.Chance(1, 8)) { out = "**/" + out; }
  return out;
}
// What the pattern says about the path: 1 match, 0 no match, -1 not defined.
int Wants(const ref_glob::Parsed& p, const std::string& rel, const ref_glob::Opt& o) {
  const ref_glob::Str s = ref_glob::Decode(rel, o.latin1);
  const bool a = ref_glob::Matches(p.toks, s, o.nocase, false);
  if (p.has_set && a != ref_glob::Matches(p.toks, s, o.nocase, true)) { return -1; }
  return a ? 1 : 0;
}
struct Spelling { std::string root; bool use_current_dir; };
// Ways to name `root` (absolute) while `cwd` (absolute, an ancestor) is the current directory.
Spelling Spell(vh::Rng& r, const std::string& root, const std::string& cwd) {
  std::string rel = root == cwd ? "" : root.substr(cwd.size() + 1);
  auto rough = [&](std::string p) {
    std::string o;
    for (char c : p) {
      o += c;
      if (c == '/' && r.Chance(1, 4)) { o += r.Of({"./", "/", "nonesuch/../", "././"}); }
    }
    return o + r.Of({"", "", "/", "/.", "//"});
  };
  const bool ucd = !r.Chance(1, 4);
  switch (r.Below(5)) {
    case 0: return {root, ucd};
    case 1: return {rough(root), ucd};
    case 2: return {rel, ucd};
    case 3: return {rel.empty() ? "." : rough(r.Coin() ? "./" + rel : rel), ucd};
    default: return {root.substr(0, root.rfind('/')) + "/x/.." + root.substr(root.rfind('/')), ucd};
  }
}
std::string Kind(mode_t m) { return S_ISDIR(m) ? "dir" : S_ISREG(m) ? "file" : S_ISLNK(m) ? "link" : S_ISFIFO(m) ? "fifo" : "other"; }

struct Seen {
  std::string path;
  std::string rel_path;
  bool has_rel = false;
  int depth = 0;
  bool link = false, dir = false, file = false;
  std::size_t size = 0;
};
Seen Take(const GlobEntry& e) {
  std::error_code ec;
  return {.path = e.entry.path().native(), .rel_path = e.rel_path.has_value() ? e.rel_path->native() : "", .has_rel = e.rel_path.has_value(), .depth = e.depth, .link = e.entry.is_symlink(ec), .dir = e.entry.is_directory(ec), .file = e.entry.is_regular_file(ec), .size = e.FileSize()};
}
void SetUp(vh::Rng& r, const std::string& top, std::string& root) {
  fs::remove_all(top);
  fs::create_directories(top);
  root = top + "/" + r.Of<std::string>({"root", "r[1]", "r*", "r\\x", "a b", "$r", "r?"});
  fs::create_directories(root);
  if (r.Chance(1, 3)) { root += "/sub.dir"; fs::create_directories(root); }
  Make(r, root, 0);
}
void CheckEntry(const Seen& s, const std::string& rel, const Node& n, const std::string& root, bool use_rel, const std::string& ctx) {
  vh::Eq("entry.depth", s.depth, n.depth, ctx + " entry " + vh::Show(rel));
  vh::Check(s.link == S_ISLNK(n.l.st_mode) && s.dir == (n.s_ok && S_ISDIR(n.s.st_mode)) && s.file == (n.s_ok && S_ISREG(n.s.st_mode)), "entry.type", [&] { return ctx + " entry " + vh::Show(rel) + " is " + Kind(n.l.st_mode) + (s.link ? " link" : "") + (s.dir ? " dir" : "") + (s.file ? " file" : ""); });
  vh::Eq("entry.size", s.size, n.s_ok && S_ISREG(n.s.st_mode) ? static_cast<std::size_t>(n.s.st_size) : 0U, ctx + " entry " + vh::Show(rel));
  vh::Eq("entry.has_rel_path", s.has_rel, use_rel, ctx);
  if (use_rel) { vh::Eq("entry.rel_path", s.rel_path, rel, ctx); }
  struct stat a {};
  vh::Check(lstat(s.path.c_str(), &a) == 0 && a.st_ino == n.l.st_ino && a.st_dev == n.l.st_dev, "entry.path", [&] { return ctx + " entry " + vh::Show(rel) + " path " + vh::Show(s.path); });
  (void)root;
}
}  // namespace

void VhMain() {
  const std::string base = fs::canonical(vh::E().scratch).native() + "/F05_" + std::to_string(vh::E().shard);
  fs::create_directories(base);
  vh::Section("walk", 400, 30000, [&](vh::Rng& r, std::uint64_t) {
    std::string root;
    fs::current_path(base);
    SetUp(r, base + "/t", root);
    fs::create_directories(base + "/t/x");
    Tree all;
    Walk(root, "", 0, true, all);
    std::vector<std::string> names;
    for (const auto& [k, v] : all) { names.push_back(k); }
    for (int k = 0; k < 12; ++k) {
      // Deeper roots as well.
      std::string from = root;
      std::vector<std::string> dirs;
      for (const auto& [n, node] : all) { if (S_ISDIR(node.l.st_mode)) { dirs.push_back(n); } }
      if (!dirs.empty() && r.Chance(1, 4)) { from += "/" + r.Pick(dirs); }
      const std::string cwd = r.Coin() ? base : r.Coin() ? from : root;
      fs::current_path(cwd);
      GlobOptions options{.use_rel_path = r.Coin(), .recursive = !r.Chance(1, 5)};
      Tree tree;
      Walk(from, "", 0, options.recursive, tree);
      std::vector<std::string> under;
      for (const auto& [n, node] : tree) { under.push_back(n); }
      ref_glob::Opt o{.star_star = !r.Chance(1, 6), .ranges = !r.Chance(1, 8), .latin1 = r.Chance(1, 6), .nocase = r.Chance(1, 6)};
      std::string pattern = under.empty() || r.Chance(1, 6) ? ref_glob::RandomPattern(r, o) : Generalize(r, r.Pick(under));
      if (r.Chance(1, 12)) { pattern = r.Of({"", "**", "*", "**/*", "*/**", "**/**/*"}); }
      const ref_glob::Parsed ref = ref_glob::Parse(pattern, o);
      if (!ref.judged) { vh::Count("unjudged_patterns"); continue; }
      mbo::file::Glob2Re2Options ropt{.allow_star_star = o.star_star, .allow_ranges = o.ranges};
      ropt.re2_options.set_log_errors(false);
      if (o.latin1) { ropt.re2_options.set_encoding(re2::RE2::Options::EncodingLatin1); }
      if (o.nocase) { ropt.re2_options.set_case_sensitive(false); }
      // How the walk is asked for.
      Spelling sp = Spell(r, from, cwd);
      options.use_current_dir = sp.use_current_dir;
      const bool split = !pattern.empty() && !pattern.starts_with("/") && !pattern.starts_with("\\/") && !pattern.starts_with("[/]") && r.Chance(1, 3);
      std::string ctx = " pattern " + vh::Show(pattern) + " root " + vh::Show(sp.root) + " in " + vh::Show(cwd) + (options.recursive ? "" : " not recursive") + (options.use_rel_path ? " use_rel_path" : "") + (options.use_current_dir ? "" : " no use_current_dir") + (o.star_star ? "" : " no**") + (o.ranges ? "" : " no[]");
      std::vector<Seen> seen;
      const auto collect = [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> { seen.push_back(Take(e)); return GlobEntryAction::kContinue; };
      absl::Status status;
      bool no_filter = pattern.empty();
      std::string prefix;  // of the split root below `from`
      vh::Case(ctx);
      if (split) {
        const std::string full = EscapeText(r, from) + "/" + pattern;
        ctx += " by GlobSplit(" + vh::Show(full) + ")";
        const auto rp = mbo::file::GlobSplit(full, ropt);
        if (!rp.ok()) { vh::Check(!ref.ok, "split.rejected", [&] { return ctx + " " + std::string(rp.status().message()); }); continue; }
        ctx += " root " + vh::Show(rp->root) + " pattern " + vh::Show(rp->pattern);
        if (rp->root != from) {
          if (!vh::Check(rp->root.starts_with(from + "/"), "split.root", [&] { return ctx; })) { continue; }
          prefix = rp->root.substr(from.size() + 1) + "/";
        }
        if (rp->pattern.empty()) { vh::Count("split_without_pattern"); }
        options.use_current_dir = true;
        no_filter = rp->pattern.empty();
        if (!ref_glob::Parse(rp->pattern, o).judged) { vh::Count("unjudged_patterns"); continue; }
        status = mbo::file::Glob(rp, ropt, options, collect);
        if (!prefix.empty()) {
          // A pattern without wildcards names the root to walk. Otherwise the root must be the directory all matches are in.
          std::error_code ec;
          if (!fs::is_directory(fs::path(rp->root), ec)) { vh::Count("split_root_not_a_directory"); vh::Check(!status.ok() && seen.empty(), "split.no_directory", [&] { return ctx; }); continue; }
          Tree sub;
          Walk(rp->root, "", 0, options.recursive, sub);
          tree.clear();
          for (auto& [n, node] : sub) { tree.emplace(prefix + n, node); }
          if (rp->pattern.empty()) {
            for (auto& t : seen) { if (t.has_rel) { t.rel_path = prefix + t.rel_path; } }
            vh::Eq("split.everything", seen.size(), sub.size(), ctx);
            continue;
          }
          for (auto& t : seen) { if (t.has_rel) { t.rel_path = prefix + t.rel_path; } }
        }
      } else {
        status = mbo::file::Glob(sp.root, pattern, ropt, options, collect);
      }
      vh::Eval();
      if (!vh::Eq("status", status.ok(), ref.ok, ctx + " " + std::string(status.message())) || !status.ok()) { continue; }
      vh::Distinct(vh::HashAll(pattern, sp.root, tree.size(), options.recursive, options.use_rel_path));
      // Every entry once, exactly those that match.
      std::map<ino_t, std::size_t> count;
      std::map<std::string, const Seen*> by;
      for (const Seen& s : seen) {
        const std::string norm = fs::path(s.path).is_absolute() ? s.path : cwd + "/" + s.path;
        if (!vh::Check(norm.starts_with(from + "/"), "entry.outside", [&] { return ctx + " path " + vh::Show(s.path); })) { continue; }
        vh::Check(by.emplace(norm.substr(from.size() + 1), &s).second, "entry.twice", [&] { return ctx + " path " + vh::Show(s.path); });
      }
      for (const auto& [rel, node] : tree) {
        const int want = no_filter ? 1 : Wants(ref, rel, o);
        if (want < 0) { continue; }
        const auto it = by.find(rel);
        vh::Count(want != 0 ? "entries_matching" : "entries_not_matching");
        vh::Check((it != by.end()) == (want != 0), want != 0 ? "entry.missed" : "entry.wrong", [&] { return ctx + " entry " + vh::Show(rel); });
        if (it != by.end()) { CheckEntry(*it->second, rel, node, from, options.use_rel_path, ctx); }
      }
      for (const auto& [rel, s] : by) { vh::Check(tree.contains(rel), "entry.unknown", [&] { return ctx + " entry " + vh::Show(rel); }); }
    }
  });
  // Callback decisions.
  vh::Section("callback", 200, 20000, [&](vh::Rng& r, std::uint64_t) {
    std::string root;
    fs::current_path(base);
    SetUp(r, base + "/t", root);
    Tree tree;
    Walk(root, "", 0, true, tree);
    for (int k = 0; k < 8; ++k) {
      const std::size_t at = r.Below(tree.size() + 2);
      const int what = static_cast<int>(r.Below(4));
      std::vector<std::string> seen;
      std::set<std::string> pruned;
      const GlobOptions options{.use_rel_path = true, .recursive = !r.Chance(1, 6)};
      const std::string pattern = r.Of({"", "**", "*", "**/*", "*/**"});
      const std::string ctx = " pattern " + pattern + " action " + std::to_string(what) + " at " + std::to_string(at);
      const auto func = [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
        seen.push_back(e.rel_path->native());
        if (what == 0 && seen.size() > at) { return GlobEntryAction::kStop; }
        if (what == 1 && seen.size() > at) { return absl::DataLossError("because"); }
        if (what == 2 && vh::HashAll(seen.back(), at) % 3 == 0) { pruned.insert(seen.back()); return GlobEntryAction::kDoNotRecurse; }
        return GlobEntryAction::kContinue;
      };
      vh::Case(ctx);
      const absl::Status status = mbo::file::Glob(root, pattern, {}, options, func);
      vh::Eval();
      // The entries the walk would report: those that match and have no pruned directory above them.
      const ref_glob::Opt o;
      const ref_glob::Parsed ref = ref_glob::Parse(pattern, o);
      std::set<std::string> want;
      for (const auto& [rel, node] : tree) {
        if ((!options.recursive && node.depth > 0) || (!pattern.empty() && Wants(ref, rel, o) != 1)) { continue; }
        bool below = false;
        for (std::size_t p = rel.find('/'); p != rel.npos; p = rel.find('/', p + 1)) { below |= pruned.contains(rel.substr(0, p)); }
        if (!below) { want.insert(rel); }
      }
      const std::set<std::string> got(seen.begin(), seen.end());
      vh::Eq("callback.twice", seen.size(), got.size(), ctx);
      if (what >= 2 || at >= want.size()) {
        vh::Check(status.ok(), "callback.status", [&] { return ctx + " " + std::string(status.message()); });
        vh::Check(got == want, "callback.entries", [&] {
          std::string d = ctx;
          for (const auto& g : got) { if (!want.contains(g)) { d += " extra " + vh::Show(g); } }
          for (const auto& w : want) { if (!got.contains(w)) { d += " missing " + vh::Show(w); } }
          return d;
        });
        vh::Count(what == 2 ? "pruned_walks" : "full_walks");
      } else {
        vh::Eq("callback.calls_after", seen.size(), at + 1, ctx);
        vh::Check(what == 0 ? status.ok() : status.code() == absl::StatusCode::kDataLoss && status.message() == "because", "callback.result", [&] { return ctx + " " + std::string(status.message()); });
        vh::Count(what == 0 ? "stopped_walks" : "failed_walks");
      }
    }
  });
  // Entries vanish while walking: no exception, nothing reported twice or made up.
  vh::Section("vanishing", 60, 5000, [&](vh::Rng& r, std::uint64_t) {
    std::string root;
    fs::current_path(base);
    SetUp(r, base + "/t", root);
    Tree tree;
    Walk(root, "", 0, true, tree);
    std::vector<std::string> names;
    for (const auto& [k, v] : tree) { names.push_back(k); }
    std::set<std::string> got;
    bool removed = false;
    vh::Case("vanishing");
    try {
      const absl::Status status = mbo::file::Glob(root, "**", {}, {.use_rel_path = true}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
        const std::string rel = e.rel_path->native();
        vh::Check(tree.contains(rel), "vanishing.unknown", [&] { return vh::Show(rel); });
        vh::Check(got.insert(rel).second, "vanishing.twice", [&] { return vh::Show(rel); });
        std::error_code ec;
        if (r.Coin()) { removed |= fs::remove_all(root + "/" + (r.Coin() ? rel : r.Pick(names)), ec) > 0; }
        return GlobEntryAction::kContinue;
      });
      vh::Count(status.ok() ? "vanishing_ok" : "vanishing_error");
      if (status.ok() && !removed) { vh::Eq("vanishing.all", got.size(), tree.size()); }
    } catch (const std::exception& e) {
      vh::Fail("exception.vanishing", e.what());
    }
    vh::Eval();
  });
  vh::Once("roots", [&](vh::Rng& r) {
    std::string root;
    fs::current_path(base);
    SetUp(r, base + "/t", root);
    std::ofstream(base + "/t/plain") << "x";
    int calls = 0;
    const auto count = [&](const GlobEntry&) -> absl::StatusOr<GlobEntryAction> { ++calls; return GlobEntryAction::kContinue; };
    for (const bool recursive : {true, false}) {
      vh::Check(mbo::file::Glob(base + "/t/none", "**", {}, {.recursive = recursive}, count).code() == absl::StatusCode::kNotFound, "root.missing", "a missing root is not found");
      vh::Check(!mbo::file::Glob(base + "/t/plain", "**", {}, {.recursive = recursive}, count).ok(), "root.file", "a file as root is an error");
      vh::Check(!mbo::file::Glob(root, "[", {}, {.recursive = recursive}, count).ok(), "root.pattern", "an invalid pattern is an error");
      vh::Check(!mbo::file::Glob(mbo::file::GlobSplit("a/[b"), {}, {.recursive = recursive}, count).ok(), "root.split", "an invalid pattern is an error");
      vh::Eval(4);
    }
    vh::Eq("root.calls", calls, 0);
    // Links are followed only if asked to; a loop ends with an error or the entries up to the system's limit, never with an exception.
    fs::remove_all(root);
    fs::create_directories(root + "/d/e");
    fs::create_directory_symlink("e", root + "/d/link");
    std::ofstream(root + "/d/e/f") << "x";
    auto list = [&](fs::directory_options d) {
      std::set<std::string> s;
      vh::Check(mbo::file::Glob(root, "**", {}, {.use_rel_path = true, .dir_options = d}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> { s.insert(e.rel_path->native()); return GlobEntryAction::kContinue; }).ok(), "links.status", "walk of a tree with a link");
      return s;
    };
    vh::Check(list(fs::directory_options::none) == std::set<std::string>{"d", "d/e", "d/e/f", "d/link"}, "links.not_followed", "a link is reported, not followed");
    vh::Check(list(fs::directory_options::follow_directory_symlink) == std::set<std::string>{"d", "d/e", "d/e/f", "d/link", "d/link/f"}, "links.followed", "a link is followed when asked to");
    fs::create_directory_symlink(".", root + "/d/loop");
    try {
      int n = 0;
      const absl::Status s = mbo::file::Glob(root, "**", {}, {.dir_options = fs::directory_options::follow_directory_symlink}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> { ++n; e.FileSize(); return n > 100000 ? GlobEntryAction::kStop : GlobEntryAction::kContinue; });
      vh::Count(s.ok() ? "loop_ok" : "loop_error");
    } catch (const std::exception& e) {
      vh::Fail("exception.loop", e.what());
    }
    vh::Eval(3);
  });
  // Trees far deeper than usual: every level is visited, whatever its depth.
  vh::Section("deep", 24, 1500, [&](vh::Rng& r, std::uint64_t) {
    fs::current_path(base);
    fs::remove_all(base + "/t");
    const std::string root = base + "/t/deep";
    fs::create_directories(root);
    const std::size_t levels = 1 + r.Below(r.Chance(1, 4) ? 300 : 40);
    std::string at = root;
    for (std::size_t k = 0; k < levels; ++k) {
      at += "/" + std::string(r.Of({"d", "e", "...", ".h", "dir"}));
      if (at.size() > 3500) { break; }
      fs::create_directory(at);
      if (r.Chance(1, 3)) { std::ofstream f(at + "/" + r.Of({"f", "g.cc", "..f"})); f << std::string(r.Below(9), 'x'); }
    }
    Tree tree;
    Walk(root, "", 0, true, tree);
    for (const char* const pattern : {"", "**", "**/f", "**/d", "d/**", "**/.*/**"}) {
      const ref_glob::Opt o;
      const ref_glob::Parsed ref = ref_glob::Parse(pattern, o);
      std::set<std::string> want;
      for (const auto& [rel, node] : tree) { if (*pattern == '\0' || Wants(ref, rel, o) == 1) { want.insert(rel); } }
      std::multiset<std::string> got;
      const std::string ctx = std::string(" pattern ") + pattern + " of " + std::to_string(tree.size()) + " entries, " + std::to_string(levels) + " levels";
      vh::Case(ctx);
      const absl::Status status = mbo::file::Glob(root, pattern, {}, {.use_rel_path = true}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> {
        const std::string& rel = e.rel_path->native();
        got.insert(rel);
        if (const auto it = tree.find(rel); vh::Check(it != tree.end(), "deep.unknown", [&] { return ctx + vh::Show(rel); })) { CheckEntry(Take(e), rel, it->second, root, true, ctx); }
        return GlobEntryAction::kContinue;
      });
      vh::Eval();
      vh::Check(status.ok() && std::multiset<std::string>(want.begin(), want.end()) == got, "deep.entries", [&] { return ctx + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + " " + std::string(status.message()); });
      vh::Distinct(vh::HashAll(pattern, levels, want.size()));
      vh::Count("deep_entries", want.size());
    }
  });
  // Patterns of the file system's root.
  vh::Once("root_directory", [&](vh::Rng&) {
    fs::current_path(base);
    DIR* const d = opendir("/");
    std::set<std::string> names;
    while (const dirent* const e = d != nullptr ? readdir(d) : nullptr) { if (std::string_view(e->d_name) != "." && std::string_view(e->d_name) != "..") { names.insert(e->d_name); } }
    if (d != nullptr) { closedir(d); }
    for (const char* const pattern : {"/et?", "/*", "/[ue]*", "/?*"}) {
      const ref_glob::Opt o;
      const ref_glob::Parsed ref = ref_glob::Parse(pattern + 1, o);
      std::set<std::string> want;
      for (const auto& n : names) { if (Wants(ref, n, o) == 1) { want.insert("/" + n); } }
      std::set<std::string> got;
      const auto split = mbo::file::GlobSplit(pattern);
      const absl::Status status = mbo::file::Glob(split, {}, {.recursive = false}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> { got.insert(e.entry.path().native()); return GlobEntryAction::kContinue; });
      vh::Eval();
      vh::Check(status.ok() && got == want, "root_directory.entries", [&] {
        std::string t = std::string(pattern) + " " + std::string(status.message()) + " root " + (split.ok() ? vh::Show(split->root) + " pattern " + vh::Show(split->pattern) : "");
        for (const auto& g : got) { if (!want.contains(g)) { t += " extra " + vh::Show(g); } }
        for (const auto& w : want) { if (!got.contains(w)) { t += " missing " + vh::Show(w); } }
        return t;
      });
      vh::Distinct(vh::HashAll(pattern));
    }
  });
  // Directories that cannot be read, as an unprivileged user.
  vh::Once("unreadable", [&](vh::Rng& r) {
    if (geteuid() != 0) { vh::Count("unreadable_not_root"); }
    for (int k = 0; k < 12; ++k) {
      fs::current_path(base);
      fs::remove_all(base + "/t");
      for (fs::path p = base; p.native().find("verif_") != std::string::npos; p = p.parent_path()) { chmod(p.c_str(), 0755); }
      const std::string root = base + "/t/r";
      fs::create_directories(root + "/a/b");
      fs::create_directories(root + "/c/d");
      std::ofstream(root + "/c/d/f") << "x";
      std::ofstream(root + "/a/f") << "x";
      const bool skip = k % 2 == 0;
      chmod((root + r.Of({"/a", "/c", "/a/b"})).c_str(), 0);
      const auto res = vh::RunChild([&] {
        if (geteuid() == 0 && (setgid(65534) != 0 || setuid(65534) != 0)) { _exit(7); }
        int n = 0;
        try {
          const absl::Status s = mbo::file::Glob(root, "**", {}, {.dir_options = skip ? fs::directory_options::skip_permission_denied : fs::directory_options::none}, [&](const GlobEntry& e) -> absl::StatusOr<GlobEntryAction> { ++n; e.FileSize(); return GlobEntryAction::kContinue; });
          std::printf("%s %d", s.ok() ? "ok" : "error", n);
          std::fflush(stdout);
        } catch (const std::exception& e) {
          std::printf("exception %s", e.what());
          std::fflush(stdout);
        }
        _exit(0);
      }, 30);
      vh::Eval();
      if (res.exited && res.code == 7) { vh::Count("no_unprivileged_user"); continue; }
      vh::Check(res.exited && res.code == 0 && !res.out.starts_with("exception"), "exception.unreadable", [&] { return std::string(skip ? "skip " : "none ") + res.out + res.err; });
      vh::Check(res.out.starts_with(skip ? "ok" : "error"), skip ? "unreadable.skip" : "unreadable.error", [&] { return res.out + res.err; });
      vh::Count("unreadable_walks");
    }
  });
  fs::current_path("/");
  fs::remove_all(base);
}
