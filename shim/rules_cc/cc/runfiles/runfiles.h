#ifndef SHIM_RUNFILES_H_
#define SHIM_RUNFILES_H_
// A stand-in: the runfiles tree is the directory $SHIM_RUNFILES_ROOT (default /repo), with one workspace level dropped.
#include <cstdlib>
#include <memory>
#include <string>
namespace rules_cc::cc::runfiles {
class Runfiles {
 public:
  static Runfiles* CreateForTest(const std::string&, std::string*) { return new Runfiles; }
  static Runfiles* CreateForTest(std::string*) { return new Runfiles; }
  std::string Rlocation(const std::string& path) const {
    if (path.empty()) { return ""; }
    const char* root = std::getenv("SHIM_RUNFILES_ROOT");
    return std::string(root == nullptr ? "/repo" : root) + "/" + path;
  }
};
}  // namespace rules_cc::cc::runfiles
#endif
