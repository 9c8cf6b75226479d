// VH-SRC: mbo/diff/diff.cc
// VH-SRC: mbo/diff/base_diff.cc
// VH-SRC: mbo/diff/chunked_diff.cc
// VH-SRC: mbo/diff/diff_options.cc
// VH-SRC: mbo/diff/impl/diff_direct.cc
// VH-SRC: mbo/diff/impl/diff_myers.cc
// VH-SRC: mbo/diff/impl/diff_naive.cc
// VH-SRC: mbo/diff/internal/chunk.cc
// VH-SRC: mbo/diff/internal/data.cc
// VH-SRC: mbo/diff/internal/output.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/strings/strip.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: mbo/types/stringify.cc
// VH-LIBS: -lpcre2-8
// VH-SRC: mbo/diff/internal/update_absl_log_flags.cc
// VH-SRC: mbo/strings/indent.cc
// VH-SRC: shim:absl_log_flags.cc
// VH-BIN: diff mbo/diff/diff_main.cc
// VH-RULE: the command line tool on pairs of random files with random flags: its output must be that of the library with the options the flags stand for, 0 exit code exactly when that is empty and 1 otherwise, nothing on stderr; without ignore flags the code follows from the bytes alone; missing, unreadable and directory arguments, a wrong number of arguments and wrong flag values end with 2, an error message and no diff
// VH-ASSUME: the flag parser (a stand-in for Abseil's) follows its documented syntax
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "mbo/diff/diff.h"
#include "mbo/file/artefact.h"
#include "ref_diff.h"
#include "re2/re2.h"
#include "vh.h"

namespace {
using mbo::diff::Diff;
using mbo::file::Artefact;
using Opt = mbo::diff::DiffOptions;

struct Out {
  int code = -1;
  std::string out, err;
};
std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
Out Run(const std::vector<std::string>& args, bool nobody = false) {
  const std::string dir = vh::E().scratch;
  std::vector<std::string> all = {std::getenv("BIN_DIFF")};
  if (nobody) {  // the build directory may be out of reach
    static const std::string copy = [&] {
      const std::filesystem::path to = std::filesystem::path(dir) / "diff_tool";
      std::filesystem::copy_file(all[0], to);
      chmod(to.c_str(), 0755);
      for (std::filesystem::path d = dir; d != "/tmp" && d != "/"; d = d.parent_path()) { chmod(d.c_str(), 0755); }
      return to.string();
    }();
    all[0] = copy;
  }
  all.insert(all.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (std::string& s : all) { argv.push_back(s.data()); }
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(open((dir + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 1);
    dup2(open((dir + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 2);
    if (nobody && (setgid(65534) != 0 || setuid(65534) != 0)) { _exit(99); }
    alarm(60);
    execv(argv[0], argv.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), Slurp(dir + "/out"), Slurp(dir + "/err")};
}
void Write(const std::string& p, const std::string& s) { std::ofstream(p, std::ios::binary) << s; }
std::string Args(const std::vector<std::string>& a) {
  std::string s;
  for (const std::string& x : a) { s += " " + vh::Show(x); }
  return s;
}

void One(vh::Rng& r, std::uint64_t) {
  const std::string dir = vh::E().scratch;
  ref::Pair p = r.Coin() ? ref::RandPair(r, 12) : ref::Pair{};
  if (p.lhs.empty() && p.rhs.empty()) {  // differences the ignore flags are about
    static const char* kL[] = {"a\n", "A\n", "a \n", " a\n", "a  b\n", "a\tb\n", "ab\n", "\n", " \n", "FOO 1\n", "FOO 2\n", "x # c\n", "x # d\n", "x\n", "'# q\n", "n 1\n", "n 2\n", "\"n 1\"\n", "'n 1'\n", "\"x # c\" # d\n", "\"x # c\"\n", "'ab'\n", "a\vb\n"};
    for (std::size_t n = r.Below(8); n > 0; --n) {
      const std::string l = r.Pick(kL);
      p.lhs += l;
      if (r.Chance(7, 8)) { p.rhs += r.Coin() ? l : std::string(r.Pick(kL)); }
    }
    if (r.Chance(1, 4) && !p.rhs.empty()) { p.rhs.pop_back(); }
  }
  if (r.Chance(1, 8)) { p.rhs = p.lhs; }
  const bool shuffled = r.Chance(1, 40);
  if (shuffled) {  // a script that takes effort to make as short as possible
    std::vector<std::string> lines;
    for (int i = 0; i < 400; ++i) { lines.push_back(std::to_string(i) + "\n"); }
    p = {};
    for (const auto& l : lines) { p.lhs += l; }
    r.Shuffle(lines);
    for (const auto& l : lines) { p.rhs += l; }
  }
  const std::string ln = dir + "/" + r.Of<const char*>({"l.txt", "left file", "-l"}), rn = dir + "/" + r.Of<const char*>({"r.txt", "right.cc", "r:r"});
  Write(ln, p.lhs);
  Write(rn, p.rhs);
  if (r.Coin()) {
    const timespec t[2] = {{0, 0}, {static_cast<time_t>(r.Below(2000000000)), 0}};
    utimensat(AT_FDCWD, ln.c_str(), t, 0);
  }
  std::vector<std::string> flags;
  Opt o;
  bool ignores = false;
  const auto on = [&](unsigned n = 6) { return r.Chance(1, n); };
  const auto boolean = [&](const char* name, bool v) {
    const std::string f = r.Coin() ? "--" : "-";
    if (v) {
      flags.push_back(f + r.Of<const char*>({"", ""}) + name + r.Of<const char*>({"", "=true", "=1"}));
    } else {
      flags.push_back(r.Coin() ? f + "no" + name : f + name + "=false");
    }
  };
  const auto value = [&](const char* name, const std::string& v) {
    if (r.Coin()) {
      flags.push_back(std::string("--") + name + "=" + v);
    } else {
      flags.push_back(std::string("--") + name);
      flags.push_back(v);
    }
  };
  const int algo = static_cast<int>(r.Below(3)), fmt = r.Coin() ? 0 : static_cast<int>(r.Below(4));
  o.algorithm = static_cast<Opt::Algorithm>(algo);
  o.output_format = static_cast<Opt::OutputFormat>(fmt);
  if (algo != 2 || on()) { value("algorithm", algo == 0 ? "naive" : algo == 1 ? "direct" : fmt == 0 && on() ? "unified" : "myers"); }
  if (fmt != 0 || on()) { value("format", fmt == 0 ? "unified" : fmt == 1 ? "context" : fmt == 2 ? "normal" : "side-by-side"); }
  if (on(3)) {
    o.context_size = r.Below(5);
    value("context", std::to_string(o.context_size));
  } else {
    o.context_size = fmt == 3 ? std::numeric_limits<std::size_t>::max() / 2 : (algo == 1 || fmt == 2) ? 0 : 3;
  }
  if (on()) {
    const int h = static_cast<int>(r.Below(4));
    value("file_header_use", h == 0 ? "none" : h == 1 ? "both" : h == 2 ? "left" : "right");
    o.file_header_use = static_cast<Opt::FileHeaderUse>(h);
  }
  if (on(3)) {
    o.show_chunk_headers = r.Coin();
    boolean("show_chunk_headers", o.show_chunk_headers);
  } else {
    o.show_chunk_headers = algo != 1;
  }
  const auto ignore = [&](const char* name, auto set) {
    if (!on()) { return; }
    const bool v = r.Chance(3, 4);
    ignores = ignores || v;
    boolean(name, v);
    set(v);
  };
  ignore("ignore_all_space", [&](bool v) { o.ignore_all_space = v; });
  ignore("ignore_case", [&](bool v) { o.ignore_case = v; });
  ignore("ignore_consecutive_space", [&](bool v) { o.ignore_consecutive_space = v; });
  ignore("ignore_blank_lines", [&](bool v) { o.ignore_blank_lines = v; });
  ignore("ignore_trailing_space", [&](bool v) { o.ignore_trailing_space = v; });
  ignore("ignore_missing_final_newline", [&](bool v) { o.ignore_missing_final_newline = v; });
  ignore("skip_left_deletions", [&](bool v) { o.skip_left_deletions = v; });
  if (on()) {
    ignores = true;
    const std::string re = r.Of<const char*>({"FOO", "^FOO 1$", "[0-9]", "^$"});
    value("ignore_matching_lines", re);
    o.ignore_matching_lines.emplace(re);
  }
  if (on(3)) {
    o.ignore_matching_chunks = r.Coin();
    boolean("ignore_matching_chunks", o.ignore_matching_chunks);
  }
  std::string comment = r.Of<const char*>({"#", "// "});
  if (on()) {
    ignores = true;
    value("strip_comments", comment);
    bool parsed = true;
    if (r.Coin()) {
      parsed = r.Coin();
      boolean("strip_parsed_comments", parsed);
    }
    if (parsed) {
      o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = comment, .remove_quotes = false}};
    } else {
      o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = comment};
    }
  }
  for (int side = 0; side < 2; ++side) {
    if (!on(8)) { continue; }
    ignores = true;
    const std::string sep = r.Of<const char*>({"/", ",", "|"});
    const std::string re = r.Of<const char*>({"[0-9]", "FOO", "a *"}), to = r.Of<const char*>({"", "X", "b"});
    value(side == 0 ? "regex_replace_lhs" : "regex_replace_rhs", sep + re + sep + to + sep);
    (side == 0 ? o.regex_replace_lhs : o.regex_replace_rhs).emplace(Opt::RegexReplace{.regex = std::make_unique<RE2>(re), .replace = to});
  }
  if (shuffled || on()) {
    o.minimal = r.Coin();
    boolean("minimal", o.minimal);
  }
  if (on()) {
    o.side_by_side_width = r.Below(60);
    value("width", std::to_string(o.side_by_side_width));
  }
  if (on()) {
    o.strip_file_header_prefix = r.Of<std::string>({dir + "/", "/.*/", "zzz"});
    value("strip_file_header_prefix", o.strip_file_header_prefix);
  }
  bool skip_time = false;
  if (on(2)) {
    skip_time = r.Chance(3, 4);
    boolean("skip_time", skip_time);
  }
  std::size_t max_lines = 0;
  if (on()) {
    max_lines = r.Below(6);
    value("max_lines", std::to_string(max_lines));
  }
  const Artefact::Options ao{.skip_time = skip_time};
  const auto la = max_lines != 0 ? Artefact::ReadMaxLines(ln, max_lines, ao) : Artefact::Read(ln, ao);
  const auto ra = max_lines != 0 ? Artefact::ReadMaxLines(rn, max_lines, ao) : Artefact::Read(rn, ao);
  if (!la.ok() || !ra.ok()) { return; }  // judged by F02
  const auto lib = Diff::FileDiff(*la, *ra, o);
  if (!lib.ok()) { return; }
  // Flags may stand before, between and behind the file names.
  std::vector<std::string> args = flags;
  if (r.Coin()) {
    args.push_back(ln);
    args.push_back(rn);
  } else {
    args.insert(args.begin(), {ln, rn});
  }
  const Out got = Run(args);
  vh::Eval(1);
  const auto ctx = [&] { return "diff" + Args(args) + " lhs=" + vh::Show(p.lhs) + " rhs=" + vh::Show(p.rhs) + " exits " + std::to_string(got.code) + " with " + vh::Show(got.out) + " stderr " + vh::Show(got.err) + "; the library gives " + vh::Show(*lib); };
  vh::Check(got.code == (lib->empty() ? 0 : 1), "exit_code", ctx);
  vh::Check(got.out == *lib, "output", ctx);
  vh::Check(got.err.empty(), "stderr", ctx);
  if (!ignores && max_lines == 0) { vh::Check(got.code == (p.lhs == p.rhs ? 0 : 1) && got.out.empty() == (p.lhs == p.rhs), "exit_code_by_bytes", ctx); }
  if (shuffled && algo == 2) { vh::Count(o.minimal ? "shuffled_minimal" : "shuffled_capped"); }
  vh::Count("exit_" + std::to_string(got.code), 1);
  vh::Distinct(vh::HashAll(got.out, got.code));
  for (const std::string& f : {ln, rn}) { std::filesystem::remove(f); }
}

void Trouble(vh::Rng& r, std::uint64_t i) {
  const std::string dir = vh::E().scratch + "/t";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir + "/sub");
  chmod(vh::E().scratch.c_str(), 0755);
  const std::string ok = dir + "/ok", other = dir + "/other", secret = dir + "/secret", in_sub = dir + "/closed/file";
  Write(ok, r.Coin() ? "" : "a\nb\n");
  Write(other, "c\n");
  Write(secret, "a\n");
  chmod(secret.c_str(), 0);
  std::filesystem::create_directories(dir + "/closed");
  Write(in_sub, "a\n");
  chmod((dir + "/closed").c_str(), 0);
  std::filesystem::create_symlink(dir + "/nowhere", dir + "/dangling");
  std::filesystem::create_symlink(dir + "/loop", dir + "/loop");
  bool nobody = false;
  std::vector<std::string> args;
  std::string what;
  const auto files = [&](const std::string& bad) {
    if (r.Chance(1, 8)) { return args = {bad, bad}, 0; }
    const std::string good = r.Of<std::string>({ok, other});
    args = r.Coin() ? std::vector<std::string>{bad, good} : std::vector<std::string>{good, bad};
    return 0;
  };
  switch (i % 16) {
    case 0: what = "missing"; files(dir + "/nofile"); break;
    case 1: what = "directory"; files(dir + "/sub"); break;
    case 2: what = "unreadable"; nobody = true; files(secret); break;
    case 3: what = "below_unreadable"; nobody = true; files(in_sub); break;
    case 4: what = "below_file"; files(ok + "/x"); break;
    case 5: what = "dangling"; files(dir + "/dangling"); break;
    case 6: what = "loop"; files(dir + "/loop"); break;
    case 7: what = "empty_name"; files(""); break;
    case 8: what = "no_arguments"; break;
    case 9: what = "one_argument"; args = {ok}; break;
    case 10: what = "three_arguments"; args = {ok, other, ok}; break;
    case 11: what = "algorithm"; args = {ok, other, "--algorithm=" + r.Of<std::string>({"", "foo", "Myers", "myers "})}; break;
    case 12: what = "format"; args = {ok, other, r.Of<std::string>({"--format=", "--format=html", "--format=side", "--file_header_use=x", "--file_header_use="})}; break;
    case 13: what = "alias"; args = {ok, other, "--algorithm=unified", "--format=" + r.Of<std::string>({"normal", "context", "side-by-side"})}; break;
    case 14: what = "regex"; args = {ok, other, "--" + r.Of<std::string>({"ignore_matching_lines=(", "ignore_matching_lines=*", "regex_replace_lhs=/(/x/", "regex_replace_rhs=/[a/x/"})}; break;
    default: what = "replace"; args = {ok, other, "--" + r.Of<std::string>({"regex_replace_lhs", "regex_replace_rhs"}) + "=" + r.Of<std::string>({"/a/b", "/a/", "/", "a", "/a/b/c", "/a/b/c/"})}; break;
  }
  if (i % 16 < 8 && r.Chance(1, 3)) { args.push_back(r.Of<std::string>({"--max_lines=2", "--ignore_case", "--format=context", "--skip_time"})); }
  if (i % 16 >= 11 && r.Coin()) { args[1] = args[0]; }  // the same file on both sides does not make wrong usage right
  const Out got = Run(args, nobody);
  vh::Eval(1);
  const auto ctx = [&] { return what + ": diff" + Args(args) + " exits " + std::to_string(got.code) + " with " + vh::Show(got.out) + " stderr " + vh::Show(got.err); };
  vh::Check(got.code == 2, "trouble:" + what, ctx);
  vh::Check(got.out.empty(), "trouble_output:" + what, ctx);
  vh::Check(!got.err.empty(), "trouble_silent:" + what, ctx);
  vh::Count("trouble_" + what, 1);
  chmod((dir + "/closed").c_str(), 0700);
  std::filesystem::remove_all(dir);
}
}  // namespace

void VhMain() {
  vh::Section("tool", 3000, 40000, One);
  vh::Section("trouble", 400, 4000, Trouble);
}
