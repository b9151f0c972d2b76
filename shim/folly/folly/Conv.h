#pragma once
#include <folly/Range.h>
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
namespace folly {
struct ConversionError : std::range_error { using std::range_error::range_error; };
namespace shim {
inline void app(std::string& o, const std::string& s) { o += s; }
inline void app(std::string& o, const char* s) { o += s; }
inline void app(std::string& o, char c) { o += c; }
inline void app(std::string& o, bool b) { o += b ? "1" : "0"; }
inline void app(std::string& o, StringPiece s) { o.append(s.data(), s.size()); }
template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, char>::value && !std::is_same<T, bool>::value, int>::type = 0>
void app(std::string& o, T v) { o += std::to_string(v); }
template <class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0>
void app(std::string& o, T v) { o += std::to_string((long long)v); }
template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
void app(std::string& o, T v) { std::ostringstream s; s << v; o += s.str(); }
inline void appAll(std::string*) {}
template <class... A> void go(std::string* out) {}
template <class T, class... R>
void go(std::string* out, const T& t, const R&... r) { app(*out, t); go(out, r...); }
template <class T> std::string* last(T t) { return t; }
template <class T, class... R> auto last(T, R... r) -> decltype(last(r...)) { return last(r...); }
inline void rec(std::string* out) {}
template <class T> T parse(StringPiece s) {
  std::string t = s.str();
  size_t i = 0;
  while (i < t.size() && std::isspace((unsigned char)t[i])) ++i;
  size_t j = t.size();
  while (j > i && std::isspace((unsigned char)t[j - 1])) --j;
  t = t.substr(i, j - i);
  if (t.empty()) throw ConversionError("Empty input string");
  if constexpr (std::is_same<T, bool>::value) {
    for (auto& c : t) c = (char)std::tolower((unsigned char)c);
    if (t == "1" || t == "true" || t == "t" || t == "y" || t == "yes" || t == "on") return true;
    if (t == "0" || t == "false" || t == "f" || t == "n" || t == "no" || t == "off") return false;
    throw ConversionError("Invalid value for bool");
  } else if constexpr (std::is_floating_point<T>::value) {
    char* e = nullptr; double d = strtod(t.c_str(), &e);
    if (*e) throw ConversionError("bad float");
    return (T)d;
  } else {
    errno = 0; char* e = nullptr;
    if (std::isspace((unsigned char)t[0])) throw ConversionError("bad");
    long long v = strtoll(t.c_str(), &e, 10);
    if (*e || errno) throw ConversionError("Non-digit character found");
    if (v < (long long)std::numeric_limits<T>::min() ||
        (sizeof(T) < 8 && v > (long long)std::numeric_limits<T>::max()))
      throw ConversionError("overflow");
    return (T)v;
  }
}
template <class T> T conv(std::true_type, StringPiece s) { return parse<T>(s); }
}  // namespace shim
namespace shim {
template <class Tup, size_t... I>
void appendAll(const Tup& tup, std::index_sequence<I...>) {
  std::string* out = std::get<sizeof...(I)>(tup);
  (app(*out, std::get<I>(tup)), ...);
}
}
template <class... R>
void toAppend(const R&... r) {
  auto tup = std::tie(r...);
  shim::appendAll(tup, std::make_index_sequence<sizeof...(R) - 1>());
}
template <class T> T to(StringPiece s) { return shim::parse<T>(s); }
template <class T> T to(const std::string& s) { if constexpr (std::is_same<T, std::string>::value) return s; else return shim::parse<T>(StringPiece(s)); }
template <class T> T to(const char* s) { if constexpr (std::is_same<T, std::string>::value) return s; else return shim::parse<T>(StringPiece(s)); }
template <class T, class V, typename std::enable_if<std::is_arithmetic<V>::value || std::is_enum<V>::value, int>::type = 0>
T to(const V& v) {
  if constexpr (std::is_same<T, std::string>::value) { std::string r; shim::app(r, v); return r; }
  else return (T)v;
}
template <class T, class A, class B, class... R>
T to(const A& a, const B& b, const R&... r) { T s; shim::app(s, a); shim::app(s, b); (shim::app(s, r), ...); return s; }
}  // namespace folly
