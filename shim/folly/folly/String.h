#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
#include <cctype>
#include <cstring>
#include <string>
#include <vector>
namespace folly {
inline std::string humanify(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) { if (std::isprint(c)) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
  return r;
}
inline std::string errnoStr(int e) { return std::string("errno ") + std::to_string(e); }
template <class D, class S, class O>
void split(const D& delim, const S& in, std::vector<O>& out, bool ignoreEmpty = false) {
  std::string d; shim::app(d, delim);
  std::string s; shim::app(s, in);
  size_t p = 0;
  while (true) {
    size_t q = s.find(d, p);
    std::string t = s.substr(p, q == std::string::npos ? q : q - p);
    if (!(ignoreEmpty && t.empty())) out.push_back(O(t));
    if (q == std::string::npos) break;
    p = q + d.size();
  }
}
template <class D, class C> std::string join(const D& delim, const C& c) {
  std::string r; bool first = true;
  for (auto const& x : c) { if (!first) shim::app(r, delim); first = false; shim::app(r, x); }
  return r;
}
inline std::string hexlify(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
inline StringPiece trimWhitespace(StringPiece s) { while (!s.empty() && std::isspace((unsigned char)s.front())) s.pop_front(); while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back(); return s; }
}  // namespace folly
