#pragma once
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace folly {
template <class T, class Tag = void>
class ThreadLocalPtr {
 public:
  T* get() const { std::lock_guard<std::mutex> l(m_); auto it = v_.find(std::this_thread::get_id()); return it == v_.end() ? nullptr : it->second.get(); }
  void reset(T* t = nullptr) { std::lock_guard<std::mutex> l(m_); v_[std::this_thread::get_id()].reset(t); }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  explicit operator bool() const { return get() != nullptr; }
  class Accessor {
   public:
    explicit Accessor(ThreadLocalPtr& o) { std::lock_guard<std::mutex> l(o.m_); for (auto& p : o.v_) if (p.second) ptrs_.push_back(p.second.get()); }
    struct It { typename std::vector<T*>::iterator i; T& operator*() { return **i; } T* operator->() { return *i; } It& operator++() { ++i; return *this; } bool operator!=(const It& o) const { return i != o.i; } };
    It begin() { return It{ptrs_.begin()}; }
    It end() { return It{ptrs_.end()}; }
   private:
    std::vector<T*> ptrs_;
  };
  Accessor accessAllThreads() const { return Accessor(const_cast<ThreadLocalPtr&>(*this)); }
 private:
  mutable std::mutex m_;
  mutable std::map<std::thread::id, std::unique_ptr<T>> v_;
};
template <class T, class Tag = void>
class ThreadLocal {
 public:
  T* get() const { T* p = p_.get(); if (!p) { p = new T(); p_.reset(p); } return p; }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  void reset(T* t = nullptr) { p_.reset(t); }
  typename ThreadLocalPtr<T, Tag>::Accessor accessAllThreads() const { return p_.accessAllThreads(); }
 private:
  mutable ThreadLocalPtr<T, Tag> p_;
};
}
