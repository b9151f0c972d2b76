#pragma once
// Minimal stand-in for folly/Range.h: enough of the API to compile and analyse
// facebook/wdt where folly is not installed.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace folly {
template <class Iter>
class Range {
 public:
  using size_type = std::size_t;
  using iterator = Iter;
  using const_iterator = Iter;
  using value_type = typename std::remove_reference<
      typename std::iterator_traits<Iter>::reference>::type;
  using reference = typename std::iterator_traits<Iter>::reference;
  static constexpr size_type npos = std::string::npos;
  constexpr Range() : b_(), e_() {}
  constexpr Range(Iter start, Iter end) : b_(start), e_(end) {}
  constexpr Range(Iter start, size_type size) : b_(start), e_(start + size) {}
  template <class T = Iter, typename std::enable_if<std::is_same<T, const char*>::value, int>::type = 0>
  constexpr Range(const char* s) : b_(s), e_(s + std::char_traits<char>::length(s)) {}
  template <class T = Iter, typename std::enable_if<std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = Iter, typename std::enable_if<std::is_same<T, const char*>::value, int>::type = 0>
  Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = Iter, typename std::enable_if<std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_type off) : b_(s.data() + check(off, s.size())), e_(s.data() + s.size()) {}
  template <class T = Iter, typename std::enable_if<std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_type off, size_type n)
      : b_(s.data() + check(off, s.size())), e_(b_ + std::min(n, s.size() - off)) {}
  template <class O, typename std::enable_if<std::is_convertible<O, Iter>::value && !std::is_same<O, Iter>::value, int>::type = 0>
  Range(const Range<O>& o) : b_(o.begin()), e_(o.end()) {}
  template <class O, typename std::enable_if<std::is_same<Iter, const unsigned char*>::value && std::is_same<O, const char*>::value, int>::type = 0>
  explicit Range(const Range<O>& o, int = 0) : b_((Iter)o.begin()), e_((Iter)o.end()) {}
  constexpr size_type size() const { return e_ - b_; }
  constexpr bool empty() const { return b_ == e_; }
  constexpr Iter data() const { return b_; }
  constexpr Iter start() const { return b_; }
  constexpr Iter begin() const { return b_; }
  constexpr Iter end() const { return e_; }
  constexpr Iter cbegin() const { return b_; }
  constexpr Iter cend() const { return e_; }
  reference front() const { return *b_; }
  reference back() const { return *(e_ - 1); }
  reference operator[](size_type i) const { return b_[i]; }
  reference at(size_type i) const { if (i >= size()) throw std::out_of_range("index"); return b_[i]; }
  void clear() { b_ = Iter(); e_ = Iter(); }
  void assign(Iter s, Iter e) { b_ = s; e_ = e; }
  void reset(Iter s, size_type n) { b_ = s; e_ = s + n; }
  void advance(size_type n) { if (n > size()) throw std::out_of_range("index out of range"); b_ += n; }
  void subtract(size_type n) { if (n > size()) throw std::out_of_range("index out of range"); e_ -= n; }
  void uncheckedAdvance(size_type n) { b_ += n; }
  void uncheckedSubtract(size_type n) { e_ -= n; }
  void pop_front() { ++b_; }
  void pop_back() { --e_; }
  Range subpiece(size_type first, size_type len = npos) const {
    if (first > size()) throw std::out_of_range("index out of range");
    return Range(b_ + first, std::min(len, size() - first));
  }
  Range uncheckedSubpiece(size_type first, size_type len = npos) const { return Range(b_ + first, std::min(len, size() - first)); }
  size_type find(value_type c, size_type pos = 0) const {
    for (size_type i = pos; i < size(); ++i) if (b_[i] == c) return i;
    return npos;
  }
  bool startsWith(const Range& o) const { return size() >= o.size() && std::equal(o.begin(), o.end(), b_); }
  bool removePrefix(const Range& o) { if (!startsWith(o)) return false; b_ += o.size(); return true; }
  Range split_step(char d) {
    size_type i = find(d);
    Range r(b_, i == npos ? size() : i);
    b_ = (i == npos) ? e_ : std::next(b_, i + 1);
    return r;
  }
  int compare(const Range& o) const {
    size_type n = std::min(size(), o.size());
    for (size_type i = 0; i < n; ++i) { if (b_[i] < o.b_[i]) return -1; if (o.b_[i] < b_[i]) return 1; }
    return size() < o.size() ? -1 : (size() > o.size() ? 1 : 0);
  }
  std::string str() const { return std::string(b_, e_); }
  std::string toString() const { return str(); }
  explicit operator std::string() const { return str(); }
 private:
  static size_type check(size_type off, size_type n) { if (off > n) throw std::out_of_range("index out of range"); return off; }
  Iter b_, e_;
};
template <class I> bool operator==(const Range<I>& a, const Range<I>& b) { return a.compare(b) == 0; }
template <class I> bool operator!=(const Range<I>& a, const Range<I>& b) { return a.compare(b) != 0; }
template <class I> bool operator<(const Range<I>& a, const Range<I>& b) { return a.compare(b) < 0; }
using StringPiece = Range<const char*>;
using MutableStringPiece = Range<char*>;
using ByteRange = Range<const unsigned char*>;
using MutableByteRange = Range<unsigned char*>;
inline std::ostream& operator<<(std::ostream& os, const StringPiece& p) { return os.write(p.start(), p.size()); }
}  // namespace folly
