#pragma once
#include <optional>
namespace folly {
struct None {};
inline constexpr None none{};
template <class T>
class Optional : public std::optional<T> {
 public:
  using std::optional<T>::optional;
  Optional() {}
  Optional(None) {}
  Optional(const T& v) : std::optional<T>(v) {}
  Optional(T&& v) : std::optional<T>(std::move(v)) {}
  bool hasValue() const { return this->has_value(); }
  Optional& operator=(None) { this->reset(); return *this; }
  template <class U> Optional& operator=(U&& u) { std::optional<T>::operator=(std::forward<U>(u)); return *this; }
};
}
