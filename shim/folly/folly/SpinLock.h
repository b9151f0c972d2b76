#pragma once
#include <atomic>
#include <mutex>
#include <thread>
namespace folly {
class SpinLock {
 public:
  void lock() const { while (f_.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); }
  void unlock() const { f_.clear(std::memory_order_release); }
  bool try_lock() const { return !f_.test_and_set(std::memory_order_acquire); }
 private:
  mutable std::atomic_flag f_ = ATOMIC_FLAG_INIT;
};
using SpinLockGuard = std::lock_guard<SpinLock>;
}
