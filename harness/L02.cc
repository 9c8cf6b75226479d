// VH-VARIANT: gcc CXX=g++ OPT=-O0 -g0
// VH-VARIANT: clang CXX=clang++ OPT=-O1 -g0
// VH-RULE: random lists of streamed pieces (text with NULs and newlines, numbers, manipulators between them) through every scoped stream form, mode and sink type, nested and sequential; a recording stream buffer logs each byte with the moment it arrived; forms that end the program run in a child which records what ran afterwards and the at-exit handlers
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <source_location>
#include <sstream>
#include <string>
#include <vector>

#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"
#include "vh.h"

namespace other_ns {  // MBO_LOG_CHECK must work from any namespace.
bool Condition(int* count, bool v) { ++*count; return v; }
int Argument(int* count, int v) { ++*count; return v; }
void Check(bool v, int* cond, int* arg, int a, std::string_view s) { MBO_LOG_CHECK(Condition(cond, v)) << s << Argument(arg, a); }
void CheckIfElse(bool v, int* cond, int* arg, bool enter, int* els) {
  if (enter) MBO_LOG_CHECK(Condition(cond, v)) << Argument(arg, 1); else ++*els;
}
void CheckOr(bool v, int* cond) { MBO_LOG_CHECK(Condition(cond, false) || Condition(cond, v)); }
}  // namespace other_ns

namespace {
using mbo::log::ScopedLogCheck;
using mbo::log::ScopedStream;
using mbo::log::ScopedStreamMode;
using mbo::log::Voidifier;
using mbo::log::VoidStream;
using std::source_location;

// A sink which remembers what arrived and when it was flushed.
class Recorder : public std::streambuf {
 public:
  std::string text, flushed;
 protected:
  int overflow(int c) override { if (c != EOF) { text += static_cast<char>(c); } return 0; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { text.append(s, static_cast<std::size_t>(n)); return n; }
  int sync() override { flushed = text; return 0; }
};

struct Piece { int kind; std::string s; long i; double d; };
std::vector<Piece> Pieces(vh::Rng& r) {
  std::vector<Piece> v(r.Below(4) == 0 ? r.Below(2) : r.Below(9));
  for (Piece& p : v) {
    p.kind = static_cast<int>(r.Below(7));
    p.s = r.Coin() ? r.Text("abc :[]@\n%", r.Below(10)) : r.Bytes(r.Of<std::size_t>({0, 1, 5, 100, 3000}));
    p.i = static_cast<long>(r.Next()) >> r.Below(60);
    p.d = static_cast<double>(r.Range(-1000, 1000)) / 8;
  }
  return v;
}
template <typename S>
void PutOne(S& out, const Piece& p) {
  switch (p.kind) {
    case 0: out << p.s; break;
    case 1: out << std::string_view(p.s); break;
    case 2: out << p.i; break;
    case 3: out << p.d; break;
    case 4: out << static_cast<char>(p.i); break;
    case 5: out << p.s << p.i << "|"; break;
    default: out << p.s.c_str(); break;
  }
}
template <typename S>
void Put(S& out, const std::vector<Piece>& v) { for (const Piece& p : v) { PutOne(out, p); } }
std::string Text(const std::vector<Piece>& v) { std::ostringstream os; for (const Piece& p : v) { PutOne(os, p); } return os.str(); }

std::string Where(const source_location& l) { return "[" + std::string(l.file_name()) + ":" + std::to_string(l.line()) + "] @" + l.function_name(); }
std::string Line(const source_location& l, std::string_view msg, std::string_view text) {
  std::string r = Where(l);
  if (!msg.empty()) { r += " : "; r += msg; }
  if (!text.empty()) { r += " : "; r += text; }
  return r + "\n";
}
void Expect(std::string_view key, const std::string& got, const std::string& want) {
  vh::Eval();
  vh::Count("outputs_compared");
  vh::Check(got == want, key, [&] { return "got " + vh::Json(got.substr(0, 1500)) + " want " + vh::Json(want.substr(0, 1500)); });
}
// Redirects a standard stream.
class Redirect {
 public:
  Redirect(std::ostream& os, std::streambuf* b) : os_(os), old_(os.rdbuf(b)) {}
  ~Redirect() { os_.rdbuf(old_); }
 private:
  std::ostream& os_;
  std::streambuf* old_;
};

void Continue(vh::Rng& r) {
  const auto pieces = Pieces(r);
  const std::string text = Text(pieces);
  const std::string msg = r.Coin() ? r.Text("xyz :", r.Below(8)) : "";
  Recorder rec, err, out;
  std::ostream os(&rec);
  const Redirect re(std::cerr, &err), ro(std::cout, &out);
  const auto loc = source_location::current();
  vh::Distinct(vh::HashAll(std::string_view(text), std::string_view(msg)));
  vh::Case(vh::Hex(text.substr(0, 300)));
  auto reset = [&] { rec.text.clear(); err.text.clear(); out.text.clear(); };
  auto only = [&](std::string_view key, const std::string& r1, const std::string& e1, const std::string& o1) {
    Expect(key, rec.text, r1);
    Expect(key, err.text, e1);
    Expect(key, out.text, o1);
    reset();
  };
  { ScopedStream<> s(loc, os, msg); Put(s, pieces); vh::Check(rec.text.empty(), "early", "output before the scope ended"); }
  only("stream_msg", Line(loc, msg, text), "", "");
  { ScopedStream s(loc, os); Put(s, pieces); vh::Eq("stream_text", s.Stream().str(), text); }
  only("stream", Line(loc, "", text), "", "");
  { ScopedStream s(loc); Put(s, pieces); }
  only("default_sink", "", Line(loc, "", text), "");
  { ScopedStream<ScopedStreamMode::kContinue, VoidStream> s(loc, os, msg); Put(s, pieces); }
  only("void_text", Line(loc, msg, ""), "", "");
  { ScopedStream<ScopedStreamMode::kContinue, std::stringstream, VoidStream> s(loc, Voidifier{}, msg); Put(s, pieces); }
  only("void_sink", "", "", "");
  { ScopedStream<ScopedStreamMode::kContinue, VoidStream, VoidStream, Voidifier> s(loc, Voidifier{}); Put(s, pieces); }
  only("void_all", "", "", "");
  { ScopedStream<ScopedStreamMode::kContinue, std::stringstream, Voidifier, Voidifier> s(loc, Voidifier{}); Put(s, pieces); }
  only("err_sink", "", Line(loc, "", text), "");
  { ScopedStream<ScopedStreamMode::kContinue, std::stringstream, std::ostream, Voidifier> s(loc, os, Voidifier{}); Put(s, pieces); }
  only("void_msg", Line(loc, "", text), "", "");
  { ScopedStream<ScopedStreamMode::kContinue, VoidStream, Voidifier, Voidifier> s(loc, Voidifier{}); Put(s, pieces); }
  only("err_void_text", "", Line(loc, "", ""), "");
  source_location at = source_location::current();
  { at = source_location::current(); auto s = mbo::log::ScopedStreamOut(at); Put(s, pieces); }
  only("out", "", "", Line(at, "", text));
  { auto s = mbo::log::ScopedStreamErr(at); Put(s, pieces); }
  only("err", "", Line(at, "", text), "");
  { auto s = mbo::log::ScopedStreamVoid(at); Put(s, pieces); }
  only("void", "", "", "");
  // The default location is that of the call.
  { auto s = mbo::log::ScopedStreamOut(); s << "D"; at = source_location::current(); }
  only("default_location", "", "", Line(at, "", "D"));
  // Temporaries output at the end of their statement, each once, in order.
  for (const Piece& p : pieces) { mbo::log::ScopedStreamOut(loc) << p.i << "<" << p.s; }
  std::string want;
  for (const Piece& p : pieces) { want += Line(loc, "", std::to_string(p.i) + "<" + p.s); }
  only("temporary", "", "", want);
  // Nested scopes: the inner one outputs first; pieces may be interleaved.
  {
    ScopedStream<> a(loc, os, "A");
    {
      ScopedStream<> b(loc, os, "B");
      for (const Piece& p : pieces) { PutOne(a, p); PutOne(b, p); b << 'b'; }
    }
    a << "tail";
  }
  std::ostringstream tb;
  for (const Piece& p : pieces) { PutOne(tb, p); tb << 'b'; }
  only("nested", Line(loc, "B", tb.str()) + Line(loc, "A", text + "tail"), "", "");
  // Leaving a scope early.
  auto leave = [&](int how) {
    for (int i = 0; i < 3; ++i) {
      ScopedStream s(loc, os);
      s << how << ":" << i;
      if (how == 0 && i == 1) { return; }
      if (how == 1 && i == 0) { continue; }
      if (how == 2 && i == 1) { throw 1; }
      s << "!";
    }
  };
  leave(0);
  only("return", Line(loc, "", "0:0!") + Line(loc, "", "0:1"), "", "");
  leave(1);
  only("continue", Line(loc, "", "1:0") + Line(loc, "", "1:1!") + Line(loc, "", "1:2!"), "", "");
  try { leave(2); } catch (int) {}
  only("throw", Line(loc, "", "2:0!") + Line(loc, "", "2:1"), "", "");
  // Formatting state belongs to the scoped stream: it applies to the rest of it and not to the sink.
  { ScopedStream s(loc, os); s << 255 << std::hex << 255 << ' ' << std::setw(6) << 255; }
  only("format", Line(loc, "", "255ff     ff"), "", "");
  { ScopedStream s(loc, os); s << 255; }
  only("format_after", Line(loc, "", "255"), "", "");
  // A passing check.
  int cond = 0, arg = 0, els = 0;
  ScopedLogCheck(true, "what", loc) << "x" << 1 << text;
  only("passing_check", "", "", "");
  other_ns::Check(true, &cond, &arg, 7, text);
  only("passing_log_check", "", "", "");
  vh::Eq("passing_log_check:condition", cond, 1);
  vh::Eq("passing_log_check:argument", arg, 0);
  other_ns::CheckIfElse(false, &cond, &arg, false, &els);
  vh::Eq("log_check_else", els, 1);
  vh::Eq("log_check_else", cond, 1);
  other_ns::CheckIfElse(true, &cond, &arg, true, &els);
  vh::Eq("log_check_then", els, 1);
  vh::Eq("log_check_then", cond, 2);
  cond = 0;
  other_ns::CheckOr(true, &cond);
  vh::Eq("log_check_or", cond, 2);
  only("passing_log_check", "", "", "");
  vh::Eval(8);
}

struct Shared { int after, exit_handler, quick_handler, destroyed, cond, arg; };
Shared* shared = nullptr;
struct Destroyed { ~Destroyed() { ++shared->destroyed; } };

void Exit(vh::Rng& r) {
  const auto pieces = Pieces(r);
  const std::string text = Text(pieces);
  const std::string msg = r.Text("xyz :", 1 + r.Below(8));
  const auto loc = source_location::current();
  const std::uint64_t kind = r.Below(10);
  *shared = Shared{};
  const std::string file = vh::E().scratch + "/sink";
  unlink(file.c_str());
  const auto c = vh::RunChild([&] {
    std::atexit([] { ++shared->exit_handler; });
    std::at_quick_exit([] { ++shared->quick_handler; });
    const Destroyed d;
    std::ofstream fs(file, std::ios::binary);
    switch (kind) {
      case 0: { ScopedStream<ScopedStreamMode::kQuickExit> s(loc, fs, msg); Put(s, pieces); break; }
      case 1: { ScopedStream<ScopedStreamMode::kQuickExit> s(loc, std::cerr, msg); Put(s, pieces); break; }
      case 2: { ScopedStream<ScopedStreamMode::kQuickExit, VoidStream> s(loc, std::cerr, msg); Put(s, pieces); break; }
      case 3: { ScopedStream<ScopedStreamMode::kQuickExit, std::stringstream, VoidStream> s(loc, Voidifier{}, msg); Put(s, pieces); break; }
      case 4: { auto s = mbo::log::ScopedStreamErr<ScopedStreamMode::kQuickExit>(loc); Put(s, pieces); break; }
      case 5: { auto s = mbo::log::ScopedStreamOut<ScopedStreamMode::kQuickExit>(loc); Put(s, pieces); break; }
      case 6: { auto&& s = ScopedLogCheck(false, msg, loc); s << std::string_view(text); break; }
      case 7: { ScopedLogCheck(false, msg, loc) << std::string_view(text) << 5 << 'x'; break; }
      case 8: other_ns::Check(false, &shared->cond, &shared->arg, 77, text); break;
      default: { int els = 0; other_ns::CheckIfElse(false, &shared->cond, &shared->arg, true, &els); }
    }
    ++shared->after;
  });
  std::string sink;
  { std::ifstream f(file, std::ios::binary); std::ostringstream os; os << f.rdbuf(); sink = os.str(); }
  unlink(file.c_str());
  const std::string key = "exit:" + std::to_string(kind);
  const std::string ctx = "kind " + std::to_string(kind);
  vh::Eval();
  vh::Count("programs_ended");
  vh::Distinct(vh::HashAll(kind, std::string_view(text)));
  vh::Check(c.exited && c.code == 1, key + ":code", ctx + " exited=" + vh::Show(c.exited) + " code " + std::to_string(c.code) + " signal " + std::to_string(c.sig) + " " + c.err);
  vh::Check(!c.Sanitizer(), key + ":sanitizer", c.err);
  vh::Eq(key + ":after", shared->after, 0, "statements after the scope ran:");
  vh::Eq(key + ":quick_handler", shared->quick_handler, 1);
  vh::Eq(key + ":exit_handler", shared->exit_handler, 0);
  std::string f, e, o;
  switch (kind) {
    case 0: f = Line(loc, msg, text); break;
    case 1: e = Line(loc, msg, text); break;
    case 2: e = Line(loc, msg, ""); break;
    case 3: break;
    case 4: e = Line(loc, "", text); break;
    case 5: o = Line(loc, "", text); break;
    case 6: e = Line(loc, msg, text); break;
    case 7: e = Line(loc, msg, text + "5x"); break;
    default: break;
  }
  if (kind >= 8) {
    vh::Eq(key + ":condition", shared->cond, 1);
    vh::Eq(key + ":argument", shared->arg, 1);
    const std::string end = kind == 8 ? text + "77\n" : "1\n";
    vh::Check(c.err.ends_with(end) && c.err.find("Condition(cond, v)") != std::string::npos && c.err.find("L02.cc:") != std::string::npos, key + ":report", [&] { return "report " + vh::Json(c.err.substr(0, 800)) + " does not show location, condition and text"; });
    Expect(key + ":out", c.out, "");
  } else {
    Expect(key + ":file", sink, f);
    Expect(key + ":err", c.err, e);
    Expect(key + ":out", c.out, o);
  }
}
}  // namespace

void VhMain() {
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  vh::Section("continue", 1500, 30000, [](vh::Rng& r, std::uint64_t) { Continue(r); });
  vh::Section("exit", 250, 2500, [](vh::Rng& r, std::uint64_t) { Exit(r); });
}
