#pragma once
#include <gmock/gmock.h>
#include "absl/log/log_sink_registry.h"
namespace absl {
enum class MockLogDefault { kIgnoreUnexpected, kDisallowUnexpected };
class ScopedMockLog final {
 public:
  explicit ScopedMockLog(MockLogDefault d = MockLogDefault::kIgnoreUnexpected) : fwd_(this) {
    if (d == MockLogDefault::kIgnoreUnexpected) { EXPECT_CALL(*this, Log(testing::_, testing::_, testing::_)).Times(testing::AnyNumber()); }
    else { EXPECT_CALL(*this, Log(testing::_, testing::_, testing::_)).Times(0); }
  }
  ~ScopedMockLog() { if (on_) { RemoveLogSink(&fwd_); } }
  void StartCapturingLogs() { AddLogSink(&fwd_); on_ = true; }
  void StopCapturingLogs() { RemoveLogSink(&fwd_); on_ = false; }
  MOCK_METHOD(void, Log, (LogSeverity severity, const std::string& file_path, const std::string& message));
 private:
  struct Fwd : LogSink {
    explicit Fwd(ScopedMockLog* l) : l_(l) {}
    void Send(const LogEntry& e) override { l_->Log(e.log_severity(), std::string(e.source_filename()), std::string(e.text_message())); }
    ScopedMockLog* l_;
  };
  Fwd fwd_;
  bool on_ = false;
};
}
