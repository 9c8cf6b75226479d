#ifndef SHIM_ABSL_MUTEX_H_
#define SHIM_ABSL_MUTEX_H_
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
namespace absl {
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  Mutex(const Mutex&) = delete;
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void lock_shared() { m_.lock(); }
  void unlock_shared() { m_.unlock(); }
  void WriterLock() { m_.lock(); }
  void WriterUnlock() { m_.unlock(); }
  void AssertHeld() const {}
 private:
  std::mutex m_;
};
class [[nodiscard]] MutexLock {
 public:
  explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }
 private:
  Mutex* m_;
};
class [[nodiscard]] ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex& m) : m_(&m) { m_->ReaderLock(); }
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
}  // namespace absl
#endif
