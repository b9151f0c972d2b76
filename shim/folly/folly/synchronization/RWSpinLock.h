#pragma once
#include <mutex>
#include <shared_mutex>
namespace folly {
class RWSpinLock {
 public:
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
  void lock_shared() { m_.lock_shared(); }
  void unlock_shared() { m_.unlock_shared(); }
  bool try_lock_shared() { return m_.try_lock_shared(); }
  class ReadHolder { public: explicit ReadHolder(RWSpinLock& l) : l_(l) { l_.lock_shared(); } ~ReadHolder() { l_.unlock_shared(); } private: RWSpinLock& l_; };
  class WriteHolder { public: explicit WriteHolder(RWSpinLock& l) : l_(l) { l_.lock(); } ~WriteHolder() { l_.unlock(); } private: RWSpinLock& l_; };
 private:
  std::shared_mutex m_;
};
}
