#pragma once
#include <memory>
namespace folly { template <class T, class Tag = void> class Singleton { public: static std::shared_ptr<T> try_get() { static std::shared_ptr<T> t = std::make_shared<T>(); return t; } }; }
