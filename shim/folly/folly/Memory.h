#pragma once
#include <memory>
#include <utility>
namespace folly {
template <typename T, void (*f)(T*)>
struct static_function_deleter { void operator()(T* t) const { f(t); } };
template <class T> std::shared_ptr<T> to_shared_ptr(std::unique_ptr<T> p) { return std::shared_ptr<T>(std::move(p)); }
}
