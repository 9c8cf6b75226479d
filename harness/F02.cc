// VH-SRC: mbo/file/file.cc mbo/file/artefact.cc
// VH-VARIANT: gcc CXX=g++
// VH-VARIANT: clang CXX=clang++ OPT=-O2
// VH-RULE: contents of every kind and size (empty, NUL, every newline variant, around stream buffer sizes, up to megabytes) written over shorter and longer files, read back by every function and by plain system calls; line counts around the number of lines; modification times before 1970 and far ahead; missing, unreadable and overlong paths, directories, symbolic link loops, full devices, an unprivileged reader in a child process
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <string>
#include <string_view>
#include <vector>

#include "absl/time/time.h"
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"
#include "vh.h"

namespace {
namespace fs = std::filesystem;
using mbo::file::Artefact;

std::string RawRead(const std::string& name) {
  const int fd = ::open(name.c_str(), O_RDONLY);
  std::string s;
  char buf[65536];
  for (ssize_t n = 0; (n = ::read(fd, buf, sizeof(buf))) > 0;) { s.append(buf, static_cast<std::size_t>(n)); }
  ::close(fd);
  return s;
}
std::string FirstLines(const std::string& s, std::size_t n) {
  std::size_t at = 0;
  for (; n > 0 && at < s.size(); --n) {
    const auto p = s.find('\n', at);
    at = p == std::string::npos ? s.size() : p + 1;
  }
  return s.substr(0, at);
}
void One(vh::Rng& r, const std::string& name, const std::string& content) {
  const std::string ctx = std::to_string(content.size()) + " bytes " + vh::Hex(content.substr(0, 40));
  vh::Case(ctx);
  vh::Check(mbo::file::SetContents(name, content).ok(), "set", ctx);
  vh::Check(RawRead(name) == content, "written", [&] { return ctx + " the file has " + std::to_string(RawRead(name).size()) + " bytes"; });
  vh::Check(mbo::file::Readable(name).ok(), "readable", ctx);
  const auto got = mbo::file::GetContents(name);
  vh::Check(got.ok() && *got == content, "get", [&] { return ctx + (got.ok() ? " reads " + std::to_string(got->size()) + " bytes " + vh::Hex(got->substr(0, 40)) : " fails"); });
  const auto lines = static_cast<std::size_t>(std::count(content.begin(), content.end(), '\n'));
  for (const std::size_t n : {std::size_t{0}, std::size_t{1}, std::size_t{2}, lines, lines + 1, lines - std::min<std::size_t>(lines, 1), lines + 7, r.Below(lines + 2), ~std::size_t{0}}) {
    const auto g = mbo::file::GetMaxLines(name, n);
    vh::Check(g.ok() && *g == FirstLines(content, n), "max_lines", [&] { return ctx + " first " + std::to_string(n) + " of " + std::to_string(lines) + " lines"; });
    if (content.size() > 100000) { break; }
  }
  // The time, set to a random point.
  struct timespec ts[2];
  ts[0].tv_sec = ts[1].tv_sec = r.Chance(1, 3) ? r.Range(-2000000000, 4000000000LL) : r.Range(0, 2000000000);
  ts[0].tv_nsec = ts[1].tv_nsec = r.Coin() ? 0 : static_cast<long>(r.Below(1000000000));
  ::utimensat(AT_FDCWD, name.c_str(), ts, 0);
  struct stat st {};
  ::stat(name.c_str(), &st);
  const absl::Time want = absl::FromUnixSeconds(st.st_mtim.tv_sec) + absl::Nanoseconds(st.st_mtim.tv_nsec);
  const auto mtime = mbo::file::GetMTime(name);
  vh::Check(mtime.ok() && *mtime == want, "mtime", [&] { return ctx + " time " + std::to_string(st.st_mtim.tv_sec) + " is reported as " + (mtime.ok() ? std::to_string(absl::ToUnixSeconds(*mtime)) : "an error"); });
  const bool skip = r.Coin();
  const absl::TimeZone tz = r.Coin() ? absl::UTCTimeZone() : absl::FixedTimeZone(3600 * static_cast<int>(r.Range(-11, 11)));
  const std::size_t n = r.Below(lines + 2);
  for (const auto& [a, data] : {std::pair{Artefact::Read(name, {.skip_time = skip, .tz = tz}), content}, std::pair{Artefact::ReadMaxLines(name, n, {.skip_time = skip, .tz = tz}), FirstLines(content, n)}}) {
    vh::Check(a.ok() && a->data == data && a->name == name && a->time == (skip ? absl::UnixEpoch() : want) && a->tz.name() == tz.name(), "artefact", [&] { return ctx + (skip ? " skip" : "") + (a.ok() ? " name " + a->name + " tz " + a->tz.name() : " fails"); });
  }
  const auto plain = Artefact::Read(name);
  vh::Check(plain.ok() && plain->data == content && plain->time == want && plain->tz.name() == absl::UTCTimeZone().name(), "artefact_default", ctx);
  vh::Eval();
  vh::Count("bytes", content.size());
  vh::Distinct(vh::HashAll(content));
}
// `what` is a path nothing can be read from.
void Unreadable(const std::string& what, const std::string& kind, bool readable_too = true) {
  vh::Case("unreadable " + kind);
  const auto probe = [&](const char* fn, auto f) {
    try {
      vh::Check(!f(), "unreadable", kind + ": " + fn + " succeeds");
    } catch (const std::exception& e) {
      vh::Fail("unreadable_throws", kind + ": " + fn + " throws " + std::string(e.what()).substr(0, 80));
    }
  };
  probe("GetContents", [&] { return mbo::file::GetContents(what).ok(); });
  probe("GetMaxLines", [&] { return mbo::file::GetMaxLines(what, 1).ok(); });
  probe("Artefact::Read", [&] { return Artefact::Read(what).ok(); });
  probe("Artefact::ReadMaxLines", [&] { return Artefact::ReadMaxLines(what, 3).ok(); });
  probe("Artefact::Read skip_time", [&] { return Artefact::Read(what, {.skip_time = true}).ok(); });
  if (readable_too) { probe("Readable", [&] { return mbo::file::Readable(what).ok(); }); }
  vh::Eval();
  vh::Count("unreadable_paths");
}
}  // namespace

void VhMain() {
  const fs::path root = fs::path(vh::E().scratch) / "F02";
  fs::create_directories(root);
  const std::string name = (root / "file").native();
  vh::Section("contents", 2500, 100000, [&](vh::Rng& r, std::uint64_t i) {
    std::string content;
    switch (r.Below(6)) {
      case 0: content = r.Content(r.Len(300, 16)); break;
      case 1: content = r.Text("a\n\r", r.Below(30)); break;
      case 2: content = r.Text(std::string("\n\0\xFF\x1A\xEF\xBB\xBF", 7), r.Below(30)); break;
      case 3: content = r.Content(r.Of<std::size_t>({4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537})); break;
      case 4: for (std::uint64_t n = r.Below(20); n > 0; --n) { content += r.Text("xyz ", r.Below(20)) + r.Of<std::string>({"\n", "\n", "\r\n", "\n\n"}); } if (r.Coin()) { content += "end"; } break;
      default: content = r.Bytes(r.Below(100)); break;
    }
    if (i % 211 == 7) { content = r.Bytes(1000000 + r.Below(vh::Thorough() ? 20000000 : 2000000)); }
    One(r, name, content);
    if (i % 701 == 1) { vh::SampleText(vh::Hex(content.substr(0, 60))); }
  });
  vh::Once("unreadable", [&](vh::Rng&) {
    Unreadable((root / "missing").native(), "missing file");
    Unreadable((root / "missing/x").native(), "missing directory");
    Unreadable("", "empty path");
    Unreadable(root.native(), "directory");
    Unreadable(root.native() + "/", "directory with slash");
    Unreadable("/", "root directory");
    Unreadable("/proc", "directory of an unusual file system");
    Unreadable(name + "/x", "file as a directory");
    Unreadable((root / std::string(300, 'n')).native(), "overlong name");
    Unreadable("/" + std::string(5000, 'p'), "overlong path");
    fs::create_symlink("loop", root / "loop");
    Unreadable((root / "loop").native(), "symbolic link loop");
    fs::create_symlink("nowhere", root / "dangling");
    Unreadable((root / "dangling").native(), "dangling symbolic link");
    fs::create_symlink(root, root / "dirlink");
    Unreadable((root / "dirlink").native(), "symbolic link to a directory");
    for (const std::string& p : {(root / "missing/x").native(), root.native(), std::string(), (root / std::string(300, 'n')).native(), std::string("/dev/full")}) {
      vh::Check(!mbo::file::SetContents(p, "data").ok(), "set_error", "SetContents succeeds for " + p);
    }
    vh::Check(mbo::file::GetMTime((root / "missing").native()).status().code() == absl::StatusCode::kNotFound, "mtime_missing", "GetMTime of a missing file");
    vh::Check(mbo::file::Readable((root / "missing").native()).code() == absl::StatusCode::kNotFound, "readable_missing", "Readable of a missing file is not kNotFound");
    // A symbolic link to a file is followed.
    mbo::file::SetContents(name, "via link\n").IgnoreError();
    fs::create_symlink("file", root / "link");
    const auto via = mbo::file::GetContents(root / "link");
    vh::Check(via.ok() && *via == "via link\n", "link", "reading through a symbolic link");
  });
  vh::Once("unprivileged", [&](vh::Rng&) {
    fs::create_directories(root / "closed");
    mbo::file::SetContents(root / "closed/f", "x").IgnoreError();
    mbo::file::SetContents(root / "secret", "x").IgnoreError();
    ::chmod((root / "secret").c_str(), 0);
    ::chmod((root / "closed").c_str(), 0);
    const auto child = vh::RunChild([&] {
      if (::setuid(65534) != 0) { std::printf("privileged\n"); return 0; }
      Unreadable((root / "secret").native(), "file without read permission");
      Unreadable((root / "closed/f").native(), "file in a directory without access");
      std::printf("%s", mbo::file::SetContents((root / "secret").native(), "y").ok() ? "written\n" : "");
      std::fflush(stdout);
      return 0;
    }, 20);
    vh::Check(child.exited && child.out.find("@FAIL") == std::string::npos && child.out.find("written") == std::string::npos, "unprivileged", [&] { return "an unprivileged reader: " + child.out + child.err.substr(0, 500); });
    if (child.out.find("privileged") == std::string::npos) { vh::Count("unprivileged_reads"); }
    ::chmod((root / "closed").c_str(), 0755);
  });
  fs::remove_all(root);
}
