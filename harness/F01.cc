// VH-SRC: mbo/file/file.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: all paths up to 7 components and random ones made of names, '.', '..', repeated and trailing separators, absolute and relative; compared with a component stack; for paths which exist in a scratch tree the normalised path must be the same file by device and inode; joins of one to four parts passed as strings, views and paths (backslashes at the end are excluded: the repository's tests strip them on every system)
#include <sys/stat.h>

#include <filesystem>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "mbo/file/file.h"
#include "vh.h"

namespace {
namespace fs = std::filesystem;
std::string Norm(const std::string& p) {
  if (p.empty()) { return ""; }
  const bool abs = p[0] == '/';
  std::vector<std::string> st;
  std::string cur;
  for (std::size_t i = 0; i <= p.size(); ++i) {
    if (i < p.size() && p[i] != '/') { cur += p[i]; continue; }
    if (cur == "..") {
      if (!st.empty() && st.back() != "..") { st.pop_back(); } else if (!abs) { st.push_back(cur); }
    } else if (!cur.empty() && cur != ".") { st.push_back(cur); }
    cur.clear();
  }
  std::string r = abs ? "/" : "";
  for (std::size_t i = 0; i < st.size(); ++i) { r += (i == 0 ? "" : "/") + st[i]; }
  return r.empty() ? "." : r;
}
bool SameFile(const std::string& a, const std::string& b, bool& exists) {
  struct stat sa {}, sb {};
  exists = ::stat(a.c_str(), &sa) == 0;
  if (!exists) { return true; }
  return ::stat(b.c_str(), &sb) == 0 && sa.st_dev == sb.st_dev && sa.st_ino == sb.st_ino;
}
void One(const std::string& p, bool look) {
  vh::Case("path " + vh::Json(p));
  const std::string got = mbo::file::NormalizePath(p).native();
  vh::Eq("normalize", got, Norm(p), "NormalizePath(" + vh::Json(p) + ")");
  vh::Eq("idempotent", mbo::file::NormalizePath(got).native(), got, "NormalizePath(NormalizePath(" + vh::Json(p) + "))");
  vh::Check(got.size() < 2 || got.back() != '/', "trailing", p + " gives " + got);
  vh::Check(got.find("//") == std::string::npos, "doubled", p + " gives " + got);
  vh::Eq("is_absolute", mbo::file::IsAbsolutePath(p), !p.empty() && p[0] == '/', p);
  if (look) {
    bool exists = false;
    vh::Check(SameFile(p, got, exists), "same_file", [&] { return vh::Json(p) + " exists but " + vh::Json(got) + " is not the same file"; });
    if (exists) { vh::Count("existing_paths"); }
  }
  vh::Eval();
  vh::Distinct(vh::HashAll(p));
}
std::string RandomPath(vh::Rng& r, unsigned parts) {
  std::string s = r.Chance(1, 3) ? r.Of<std::string>({"/", "//", "///"}) : "";
  const std::uint64_t n = r.Below(parts);
  for (std::uint64_t i = 0; i < n; ++i) {
    s += r.Of<std::string>({"a", "b", "c", "a", "b", "..", ".", "...", "..a", "a.", " ", "x\\y", "f", "é", "-"});
    if (i + 1 < n || r.Coin()) { s += r.Of<std::string>({"/", "/", "/", "//", "/./", "/../", "///"}); }
  }
  return s;
}
template <typename... A>
void Joined(const std::vector<std::string>& parts, const A&... a) {
  std::string ctx;
  for (const auto& p : parts) { ctx += " " + vh::Json(p); }
  vh::Case("join" + ctx);
  // All parts are relative but the first that is not empty.
  std::string all;
  for (const auto& p : parts) { if (!p.empty()) { all += (all.empty() ? "" : "/") + p; } }
  const std::string want = Norm(all);
  // An absolute part cannot lead above its root: where that makes a difference, the result is not claimed.
  std::string fold;
  for (std::size_t i = parts.size(); i-- > 0;) {
    const std::string tail = fold;
    fold = parts[i].empty() ? tail : Norm(parts[i] + (tail.empty() ? "" : "/" + tail));
  }
  if (want == fold) {
    vh::Eq("join", mbo::file::JoinPaths(a...).native(), want, "JoinPaths" + ctx);
    vh::Count("joins");
  }
  std::string last;
  bool absolute = false;
  for (const auto& p : parts) {
    if (!p.empty() && p[0] == '/') { last = p; absolute = true; } else if (!p.empty()) { last += (last.empty() ? "" : "/") + p; }
  }
  vh::Eq("join_absolute", mbo::file::JoinPathsRespectAbsolute(a...).native(), Norm(last), "JoinPathsRespectAbsolute" + ctx);
  if (absolute) { vh::Count("joins_with_absolute_part"); }
  vh::Eval();
}
}  // namespace

void VhMain() {
  const fs::path root = fs::path(vh::E().scratch) / "F01";
  for (const std::string a : {"a", "b", "c"}) { for (const std::string b : {"a", "b", "c"}) { fs::create_directories(root / a / b / "c"); std::fclose(std::fopen((root / a / b / "f").c_str(), "w")); } }
  fs::current_path(root);
  vh::Once("all", [](vh::Rng&) {
    static const char* kParts[] = {"a", ".", "..", "", "f"};
    const std::size_t max = vh::Thorough() ? 7 : 6;
    for (std::size_t n = 0, num = 1; n <= max; ++n, num *= 5) {
      for (std::size_t k = 0; k < num; ++k) {
        std::string p;
        for (std::size_t i = 0, v = k; i < n; ++i, v /= 5) { p += (i == 0 ? "" : "/") + std::string(kParts[v % 5]); }
        One(p, n < 6);
      }
    }
  });
  vh::Section("random", 30000, 3000000, [&](vh::Rng& r, std::uint64_t i) {
    std::string p = RandomPath(r, 10);
    if (r.Chance(1, 3)) { p = root.native() + "/" + p; }
    if (p.find_last_not_of("/\\") != std::string::npos && p.find('\\', p.find_last_not_of("/\\")) != std::string::npos) { return; }
    One(p, true);
    if (i % 7001 == 1) { vh::SampleText(p); }
  });
  vh::Section("join", 20000, 2000000, [](vh::Rng& r, std::uint64_t) {
    std::vector<std::string> p;
    for (std::uint64_t n = 1 + r.Below(4); n > 0; --n) { p.push_back(r.Chance(1, 5) ? "" : RandomPath(r, 4)); }
    for (auto& s : p) { while (!s.empty() && s.back() == '\\') { s.pop_back(); } }
    switch (p.size()) {
      case 1: Joined(p, p[0]); break;
      case 2: if (r.Coin()) { Joined(p, p[0], p[1]); } else { Joined(p, fs::path(p[0]), p[1].c_str()); } break;
      case 3: Joined(p, std::string_view(p[0]), fs::path(p[1]), p[2]); break;
      default: Joined(p, p[0], p[1], p[2], p[3]); break;
    }
  });
  fs::current_path("/");
  fs::remove_all(root);
}
