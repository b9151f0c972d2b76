#pragma once
#include <utility>
namespace folly {
template <class F>
class ScopeGuardImpl {
 public:
  explicit ScopeGuardImpl(F f) : f_(std::move(f)) {}
  ScopeGuardImpl(ScopeGuardImpl&& o) : f_(std::move(o.f_)), dismissed_(o.dismissed_) { o.dismissed_ = true; }
  ScopeGuardImpl(const ScopeGuardImpl&) = delete;
  void dismiss() noexcept { dismissed_ = true; }
  void rehire() noexcept { dismissed_ = false; }
  ~ScopeGuardImpl() { if (!dismissed_) f_(); }
 private:
  F f_;
  bool dismissed_{false};
};
template <class F> ScopeGuardImpl<typename std::decay<F>::type> makeGuard(F&& f) { return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f)); }
namespace detail { enum class ScopeGuardOnExit {}; template <class F> ScopeGuardImpl<typename std::decay<F>::type> operator+(ScopeGuardOnExit, F&& f) { return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f)); } }
}
#define FSHIM_CAT1(a, b) a##b
#define FSHIM_CAT(a, b) FSHIM_CAT1(a, b)
#define SCOPE_EXIT auto FSHIM_CAT(scope_exit_, __LINE__) = ::folly::detail::ScopeGuardOnExit() + [&]() noexcept
