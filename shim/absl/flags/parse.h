#ifndef SHIM_ABSL_PARSE_H_
#define SHIM_ABSL_PARSE_H_
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "absl/flags/flag.h"
#include "absl/flags/reflection.h"
#include "absl/flags/usage.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> out;
  bool flags = true;
  for (int i = 0; i < argc; ++i) {
    const std::string_view arg(argv[i]);
    if (i == 0 || !flags || arg.size() < 2 || arg[0] != '-') { out.push_back(argv[i]); continue; }
    if (arg == "--") { flags = false; continue; }
    std::string_view a = arg.substr(arg.starts_with("--") ? 2 : 1);
    std::string_view val;
    bool has = false;
    if (const auto eq = a.find('='); eq != a.npos) { val = a.substr(eq + 1); a = a.substr(0, eq); has = true; }
    if (a == "help" || a == "helpfull" || a == "helpshort") { std::printf("%s\n", std::string(ProgramUsageMessage()).c_str()); std::exit(1); }
    CommandLineFlag* f = FindCommandLineFlag(a);
    bool negated = false;
    if (f == nullptr && a.starts_with("no")) { f = FindCommandLineFlag(a.substr(2)); negated = f != nullptr; if (f && !f->IsBool()) { f = nullptr; } }
    if (f == nullptr || (negated && has)) { std::fprintf(stderr, "ERROR: Unknown command line flag '%s'\n", std::string(a).c_str()); std::exit(1); }
    if (negated) { val = "false"; } else if (!has && f->IsBool()) { val = "true"; }
    else if (!has) { if (i + 1 >= argc) { std::fprintf(stderr, "ERROR: Missing the value for the flag '%s'\n", std::string(a).c_str()); std::exit(1); } val = argv[++i]; }
    std::string err;
    if (!f->ParseFrom(val, &err)) { std::fprintf(stderr, "ERROR: Illegal value '%s' specified for flag '%s'; %s\n", std::string(val).c_str(), std::string(a).c_str(), err.c_str()); std::exit(1); }
    f->set_on_command_line();
  }
  return out;
}
}  // namespace absl
#endif
