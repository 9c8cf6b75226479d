#ifndef SHIM_ABSL_COMMANDLINEFLAG_H_
#define SHIM_ABSL_COMMANDLINEFLAG_H_
#include <string>
#include <string_view>
namespace absl {
class CommandLineFlag {
 public:
  virtual ~CommandLineFlag() = default;
  virtual std::string_view Name() const = 0;
  virtual std::string Filename() const { return ""; }
  virtual std::string Help() const = 0;
  virtual std::string DefaultValue() const = 0;
  virtual std::string CurrentValue() const = 0;
  virtual bool IsBool() const = 0;
  virtual bool ParseFrom(std::string_view value, std::string* error) = 0;
  bool IsSpecifiedOnCommandLine() const { return on_cmd_; }
  void set_on_command_line() { on_cmd_ = true; }
 private:
  bool on_cmd_ = false;
};
}  // namespace absl
#endif
