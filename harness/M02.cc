// VH-SRC: mbo/mope/mope.cc
// VH-SRC: mbo/mope/ini.cc
// VH-SRC: mbo/file/ini/ini_file.cc
// VH-SRC: mbo/file/artefact.cc
// VH-SRC: mbo/file/file.cc
// VH-SRC: mbo/status/status_builder.cc
// VH-SRC: mbo/strings/parse.cc
// VH-SRC: mbo/types/stringify.cc
// VH-SRC: mbo/log/demangle.cc
// VH-SRC: shim:absl_log_flags.cc
// VH-LIBS: -lpcre2-8
// VH-CXXFLAGS: -g1
// VH-BIN: mope mbo/mope/mope_main.cc
// VH-RULE: token soup, truncated and mutated templates, hostile INI texts and deep nesting go through the engine under the address and undefined behaviour sanitizers: it must return (a result or an error status); the command line tool runs on templates with --set, --ini and --generate and must print or write what the evaluator says with exit 0, and fail with a non-zero exit, a message and no output otherwise: missing, unreadable or directory inputs, unwritable outputs, wrong usage, ill-formed templates
// VH-ASSUME: the flag parser (a stand-in for Abseil's) follows its documented syntax; expansion sizes are bounded by the generator: output the template itself asks for without bound is not judged
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "mbo/container/any_scan.h"
#include "mbo/mope/ini.h"
#include "mbo/mope/mope.h"
#include "mope_model.h"
#include "vh.h"

namespace {
using namespace mope_model;  // NOLINT

void Fill(const Scope& s, mbo::mope::Template& t) {
  for (const auto& [n, v] : s.vals) { (void)t.SetValue(n, v); }
  for (const auto& [n, es] : s.secs) {
    for (const Scope& e : es) {
      auto p = t.AddSection(n);
      if (p.ok()) { Fill(e, **p); }
    }
  }
}

// No numbers of more than two digits and few ranges: the output stays small whatever the text means.
bool Bounded(const std::string& t) {
  std::size_t digits = 0, semis = 0;
  for (const char c : t) {
    digits = c >= '0' && c <= '9' ? digits + 1 : 0;
    semis += c == ';' ? 1 : 0;
    if (digits > 2) { return false; }
  }
  return semis <= 6;
}

std::string Soup(vh::Rng& r) {
  std::string t;
  for (std::size_t n = r.Range(1, 14); n > 0; --n) {
    t += r.Of<std::string>({"{{", "}}", "{", "}", "{{#", "{{/", "=", ":", ";", "[", "]", ",", "\"", "'", "\\", "\n", "\r", " ", "\t", "a", "b", "i", "sec", "item", "{{a}}", "{{i}}", "{{#i=1;3}}", "{{/i}}", "{{#sec}}", "{{/sec}}", "{{#item:','}}",
                            "{{/item}}", "{{#x=[1,2]}}", "{{/x}}", "{{x}}", "{{a=1}}", "{{c1=2}}", "{{#i=3;1;-1;','}}", "1", "-2", "99", std::string(1, '\0'), "\xff", "\xc3", "\\x", "\\0", "\\o{", "{{#x=[\\", "{{#x=[", "{{#i=;", "{{#i=1;2;;\"", "{{#i=a;b;c1}}", "{{#i=i;i}}"});
  }
  return t;
}
std::string Mutate(vh::Rng& r, std::string t) {
  for (std::size_t n = r.Below(4); n > 0 && !t.empty(); --n) {
    const std::size_t at = r.Below(t.size());
    switch (r.Below(5)) {
      case 0: t.erase(at, r.Range(1, 6)); break;
      case 1: t.insert(at, Soup(r).substr(0, 8)); break;
      case 2: t[at] = r.Pick("{}#/=:;[],\"'\\ \n\r"); break;
      case 3: t.resize(at); break;
      default: t.insert(at, t.substr(r.Below(t.size()), r.Range(1, 12))); break;
    }
  }
  return t;
}

void Fuzz(vh::Rng& r, std::uint64_t) {
  Gen g{r};
  Scope data = g.RandScope(2, true);
  for (const auto& n : {"a", "b", "c1"}) { if (r.Chance(1, 4)) { data.vals[n] = r.Of<std::string>({"1", "-3", "5", "0", " 2", "+1", "2147483648", ""}); } }
  std::string t;
  for (int k = 0; k < 20; ++k) {
    t = r.Coin() ? Soup(r) : Mutate(r, g.Emit(g.RandProg()));
    if (Bounded(t)) { break; }
    t = "";
  }
  mbo::mope::Template tpl;
  Fill(data, tpl);
  std::string out = t;
  vh::Case(t);
  const absl::Status st = r.Coin() ? tpl.Expand(out) : tpl.Expand(out, mbo::container::MakeConvertingScan(std::map<std::string, std::string>{{"c1", "2"}, {"sep", ","}}));
  vh::Eval();
  vh::Count(st.ok() ? "fuzzed templates expanded" : "fuzzed templates refused", 1);
  if (!st.ok()) { vh::Count("refused: " + std::string(absl::StatusCodeToString(st.code())), 1); }
  if (t.find("{{") == std::string::npos) { vh::Check(st.ok() && out == t, "no_tags", [&] { return vh::Show(t) + " became " + vh::Show(out); }); }
  vh::Distinct(vh::HashAll(t));
}

void Ini(vh::Rng& r, std::uint64_t) {
  std::string t;
  const std::vector<std::string> names = {"p", "q", "person", "p_1"};
  const std::vector<std::string> tails = {"", ":1", ":2", ":1-a", ":a b", ":!", ":", ":1:2", ":#", ": ", ":\x01"};
  const std::uint64_t hostile = r.Below(3);
  for (std::size_t n = r.Range(1, 12); n > 0; --n) {
    std::string group;
    for (std::size_t l = r.Range(1, 3); l > 0; --l) { group += (group.empty() ? "" : ".") + r.Pick(names) + r.Pick(tails); }
    if (hostile == 0 && r.Chance(1, 4)) { group = r.Of<std::string>({"", ".", "p.", ".p", "p..q", ":", ":1", "1", "a b", "p.1", "]", "[", "p]"}); }
    t += "[" + group + "]\n";
    for (std::size_t k = r.Below(3); k > 0; --k) { t += r.Of<std::string>({"a=1\n", "b=x\n", "c = {{a}}\n", "p=7\n", "q=\n", "\n", "; note\n"}); }
    if (hostile == 0 && r.Chance(1, 4)) { t += r.Of<std::string>({"=\n", "x\n", "1=2\n", "[\n", "]\n", "a b=c\n", "[]\n", "[[p]]\n", std::string("k\0=v\n", 5)}); }
  }
  const std::string path = vh::E().scratch + "/x.ini";
  std::ofstream(path, std::ios::binary) << t;
  vh::Case(t);
  mbo::mope::Template tpl;
  if (r.Chance(1, 4)) { (void)tpl.SetValue("p", "taken"); }
  const absl::Status st = mbo::mope::ReadIniToTemlate(path, tpl);
  vh::Eval();
  vh::Count(st.ok() ? "INI texts loaded" : "INI texts refused", 1);
  std::string out = "{{a}}{{#p:','}}<{{a}}{{b}}{{#q:','}}({{a}}{{b}}{{#person}}{{a}}{{/person}}){{/q}}{{#p_1}}{{c}}{{/p_1}}>{{/p}}";
  (void)tpl.Expand(out);
  vh::Distinct(vh::HashAll(t));
}

void Nesting(vh::Rng& r, std::uint64_t) {
  const std::size_t depth = r.Range(1, 120);
  const bool sections = r.Coin();
  std::string open, close, want;
  mbo::mope::Template root;
  mbo::mope::Template* t = &root;
  for (std::size_t k = 0; k < depth; ++k) {
    const std::string n = "n" + std::to_string(k);
    if (sections) { t = *t->AddSection(n); }
    open += sections ? "{{#" + n + "}}(" : r.Coin() ? "{{#" + n + "=7;7}}(" : "{{#" + n + "=[v]}}(";
    want += "(";
    close = "){{/" + n + "}}" + close;
  }
  if (sections) { (void)t->SetValue("v", "deep"); }
  std::string out = open + "{{v}}" + close;
  if (r.Chance(1, 4)) { out.resize(r.Below(out.size())); want = ""; }
  const absl::Status st = root.Expand(out);
  vh::Eval();
  if (!want.empty()) { vh::Check(st.ok() && out == want + (sections ? "deep" : "{{v}}") + std::string(depth, ')'), "nesting", [&] { return "depth " + std::to_string(depth) + " gives " + vh::Show(out) + " " + st.ToString(); }); }
  vh::Count("nested expansions", 1);
}

// --- the command line tool ---
struct Out {
  int code = -1;
  std::string out, err;
};
std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void Write(const std::string& p, const std::string& s) { std::ofstream(p, std::ios::binary) << s; }
Out Run(const std::vector<std::string>& args, bool nobody = false) {
  const std::string dir = vh::E().scratch;
  std::vector<std::string> all = {std::getenv("BIN_MOPE")};
  if (nobody) {
    static const std::string copy = [&] {
      const std::filesystem::path to = std::filesystem::path(dir) / "mope_tool";
      std::filesystem::copy_file(all[0], to);
      chmod(to.c_str(), 0755);
      for (std::filesystem::path d = dir; d != "/tmp" && d != "/"; d = d.parent_path()) { chmod(d.c_str(), 0755); }
      return to.string();
    }();
    all[0] = copy;
  }
  all.insert(all.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (std::string& s : all) { argv.push_back(s.data()); }
  argv.push_back(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    dup2(open((dir + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 1);
    dup2(open((dir + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 2);
    if (nobody && (setgid(65534) != 0 || setuid(65534) != 0)) { _exit(99); }
    alarm(60);
    execv(argv[0], argv.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), Slurp(dir + "/out"), Slurp(dir + "/err")};
}
std::string Args(const std::vector<std::string>& a) {
  std::string s;
  for (const std::string& x : a) { s += " " + vh::Show(x); }
  return s;
}

void IniText(const Scope& s, const std::string& group, std::string& out) {
  if (!group.empty()) { out += "[" + group + "]\n"; }
  for (const auto& [n, v] : s.vals) { out += n + "=" + v + "\n"; }
  for (const auto& [n, es] : s.secs) {
    for (std::size_t k = 0; k < es.size(); ++k) { IniText(es[k], (group.empty() ? "" : group + ".") + n + (k > 0 ? ":" + std::to_string(k) : ""), out); }
  }
}

void Tool(vh::Rng& r, std::uint64_t) {
  const std::string dir = vh::E().scratch + "/tool";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir);
  Gen g{r};
  g.ini = true;
  Scope data;
  std::map<std::string, std::string> context;
  std::vector<std::string> args, sets;
  bool refused = false;
  const bool with_ini = r.Coin();
  if (with_ini) { data = g.RandScope(2, true); }
  // --set, applied before the INI file: the names must not meet.
  Scope before;
  for (std::size_t n = r.Below(4); n > 0; --n) {
    const std::string v = r.Of<std::string>({"1", "some text", "", "a=b", "x=y=z", "q", "{{a}}", "v;w", "c:d", "=", "\"q\"", "http://h/?a=1&b=2"});
    switch (r.Below(4)) {
      case 0: {
        const std::string name = r.Of<std::string>({"c1", "sep", "g"});
        sets.push_back(":" + name + "=" + v);
        context[name] = v;
        break;
      }
      case 1: {
        const std::string name = r.Of<std::string>({"set1", "set2"});
        sets.push_back(name + "=" + v);
        refused = refused || before.Has(name);
        before.vals[name] = v;
        break;
      }
      case 2: {
        const std::string name = r.Of<std::string>({"on", "area"}), key = r.Of<std::string>({"k", "a"});
        sets.push_back(name + ":" + key + "=" + v);
        before.secs[name].emplace_back().vals[key] = v;
        break;
      }
      default: {
        const std::string name = r.Of<std::string>({"on", "area"});
        sets.push_back(name + ":inner:k=" + v);
        before.secs[name].emplace_back().secs["inner"].emplace_back().vals["k"] = v;
        break;
      }
    }
    if (r.Chance(1, 12)) {
      sets.back() = r.Of<std::string>({"=x", ":=x", "a::b=1", "a:=1", "::a=1", ":a:b=1", "1x=2", "a b=2", "s-t:a=1", "on:b-c=1"});
      refused = true;
    }
  }
  for (const auto& [n, v] : before.vals) { data.vals[n] = v; }
  for (const auto& [n, es] : before.secs) { data.secs[n] = es; }
  Prog prog = g.RandProg();
  for (std::size_t n = r.Below(3); n > 0; --n) {
    Node s, t;
    s.kind = Kind::kSection;
    s.name = r.Of<std::string>({"on", "area"});
    s.join.k = Join::kLiteral;
    s.join.s = ";";
    t.kind = Kind::kValue;
    t.name = r.Of<std::string>({"k", "a", "c1", "g"});
    s.body = {t};
    t.text = "|";
    Node in;
    in.kind = Kind::kSection;
    in.name = "inner";
    in.body = {t};
    s.body.push_back(in);
    t.name = r.Of<std::string>({"set1", "set2", "g"});
    Node dot;
    dot.text = ".";
    prog.nodes.insert(prog.nodes.end(), {dot, s, t});
  }
  const std::string text = g.Emit(prog);
  const Result want = Evaluate(prog, data, context);
  if (want.too_big) { return; }
  const std::string tpl = dir + "/" + r.Of<std::string>({"t.mope", "with space.tpl"}), ini = dir + "/d.ini", gen = dir + "/out.txt";
  Write(tpl, text);
  args.push_back("--template=" + tpl);
  if (with_ini) {
    std::string it;
    Scope only = data;
    for (const auto& [n, v] : before.vals) { only.vals.erase(n); }
    for (const auto& [n, es] : before.secs) { only.secs.erase(n); }
    IniText(only, "", it);
    Write(ini, it);
    args.push_back("--ini=" + ini);
  } else if (r.Chance(1, 3)) {
    args.push_back("--ini=");
  }
  bool comma = false;
  std::string all;
  for (const std::string& s : sets) {
    comma = comma || s.find(',') != std::string::npos;
    all += (all.empty() ? "" : ",") + s;
  }
  if (!sets.empty()) { args.push_back("--set=" + all); }
  const bool to_file = r.Chance(1, 3);
  if (to_file) {
    args.push_back("--generate=" + gen);
    if (r.Coin()) { Write(gen, "old content that is longer than what is written, perhaps"); }
  } else if (r.Chance(1, 3)) {
    args.push_back(r.Coin() ? "--generate=-" : "--generate=");
  }
  const std::string old = Slurp(gen);
  const Out got = Run(args);
  vh::Eval();
  const auto ctx = [&] { return "mope" + Args(args) + " with " + vh::Show(text) + (with_ini ? " and " + vh::Show(Slurp(ini)) : "") + " exits " + std::to_string(got.code) + " with " + vh::Show(got.out) + " stderr " + vh::Show(got.err) + (to_file ? " file " + vh::Show(Slurp(gen)) : "") + "; wanted " + (refused ? "refusal" : want.ok ? vh::Show(want.out) : "error: " + want.why); };
  if (refused || !want.ok) {
    vh::Check(got.code > 0 && got.code < 1000, "tool:error_exit", ctx);
    vh::Check(got.out.empty() && !got.err.empty() && Slurp(gen) == old, "tool:error_output", ctx);
    vh::Count("tool runs that must fail", 1);
  } else {
    vh::Check(got.code == 0, "tool:exit", ctx);
    vh::Check((to_file ? Slurp(gen) : got.out) == want.out, "tool:output", ctx);
    vh::Check((!to_file || got.out.empty()) && got.err.empty(), "tool:noise", ctx);
    vh::Count("tool runs", 1);
  }
  vh::Distinct(vh::HashAll(text, got.out, got.code));
}

void Trouble(vh::Rng& r, std::uint64_t i) {
  const std::string dir = vh::E().scratch + "/t";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir + "/sub");
  chmod(vh::E().scratch.c_str(), 0755);
  const std::string ok = dir + "/ok.mope", secret = dir + "/secret", ini = dir + "/ok.ini";
  Write(ok, "x {{a}} y\n");
  Write(ini, "a=1\n");
  Write(secret, "a=1\n");
  chmod(secret.c_str(), 0);
  std::filesystem::create_symlink(dir + "/loop", dir + "/loop");
  bool nobody = false;
  std::vector<std::string> args;
  std::string what;
  const std::string bad = r.Of<std::string>({dir + "/nofile", dir + "/loop", ok + "/x", dir + "/sub"});
  const std::string set = r.Coin() ? "--set=b=2" : "--generate=-";
  switch (i % 10) {
    case 0: what = "template"; args = {"--template=" + bad, set}; break;
    case 1: what = "template_unreadable"; nobody = true; args = {"--template=" + secret, set}; break;
    case 2: what = "no_template"; args = {set}; break;
    case 3: what = "empty_template_name"; args = {"--template=", set}; break;
    case 4: what = "ini"; args = {"--template=" + ok, "--ini=" + bad}; break;
    case 5: what = "ini_unreadable"; nobody = true; args = {"--template=" + ok, "--ini=" + secret}; break;
    case 6: what = "generate"; args = {"--template=" + ok, "--generate=" + r.Of<std::string>({dir + "/none/x", dir + "/sub", ok + "/x"})}; break;
    case 7: what = "extra_argument"; args = {"--template=" + ok, "more"}; break;
    case 8: {
      what = "ill_formed";
      Write(ok, r.Of<std::string>({"{{#s}}", "{{#i=1;2;0}}{{/i}}", "{{#i=x;2}}{{/i}}", "{{#i=1;2;1;x}}{{/i}}", "{{#x=[a}}{{/x}}", "{{#x=[a];}}{{/x}}", "{{#x=[a]y}}{{/x}}", "{{#x=q}}{{/x}}", "{{#x=[\\q]}}{{/x}}", "{{a=2}}", "{{#a}}{{/a}}", "ok\n{{#i=1;2}}{{#i2=1;i3}}{{/i2}}{{/i}}", "{{#i=1;99999999999}}{{/i}}", "{{#s}}{{/S}}"}));
      args = {"--template=" + ok, "--ini=" + ini};
      break;
    }
    default: what = "ini_content"; Write(ini, r.Of<std::string>({"[1]\na=1\n", "a b=1\n", "[a b]\nx=1\n", "a=1\n[a]\nb=1\n", "=1\n", "[p..q]\na=1\n"})); args = {"--template=" + ok, "--ini=" + ini}; break;
  }
  const Out got = Run(args, nobody);
  vh::Eval();
  const auto ctx = [&] { return what + ": mope" + Args(args) + " template " + vh::Show(Slurp(ok)) + " exits " + std::to_string(got.code) + " with " + vh::Show(got.out) + " stderr " + vh::Show(got.err); };
  vh::Check(got.code > 0 && got.code < 98, "trouble:" + what, ctx);
  vh::Check(got.out.empty(), "trouble_output:" + what, ctx);
  vh::Check(!got.err.empty(), "trouble_silent:" + what, ctx);
  vh::Count("trouble_" + what, 1);
  std::filesystem::remove_all(dir);
}
}  // namespace

void VhMain() {
  vh::Section("fuzzed templates", 15000, 600000, Fuzz);
  vh::Section("hostile INI texts", 5000, 100000, Ini);
  vh::Section("deep nesting", 200, 3000, Nesting);
  vh::Section("tool", 1200, 20000, Tool);
  vh::Section("trouble", 300, 3000, Trouble);
}
