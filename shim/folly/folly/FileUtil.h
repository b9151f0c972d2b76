#pragma once
#include <fstream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <cerrno>
namespace folly {
template <class C> bool readFile(const char* f, C& out) { std::ifstream i(f); if (!i) return false; std::stringstream s; s << i.rdbuf(); out = s.str(); return true; }
template <class C> bool writeFile(const C& d, const char* f) { std::ofstream o(f); o << d; return (bool)o; }
inline ssize_t readFull(int fd, void* b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = ::read(fd, (char*)b + d, n - d); if (r < 0 && errno == EINTR) continue; if (r < 0) return r; if (!r) break; d += r; } return d; }
inline ssize_t writeFull(int fd, const void* b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = ::write(fd, (const char*)b + d, n - d); if (r < 0 && errno == EINTR) continue; if (r < 0) return r; d += r; } return d; }
inline int closeNoInt(int fd) { return ::close(fd); }
inline int fsyncNoInt(int fd) { return ::fsync(fd); }
}
