#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
namespace folly {
struct Endian { template <class T> static T little(T x) { return x; } template <class T> static T big(T x) { T r; auto* s = (const unsigned char*)&x; auto* d = (unsigned char*)&r; for (unsigned i = 0; i < sizeof(T); ++i) d[i] = s[sizeof(T) - 1 - i]; return r; } };
template <class T> inline T loadUnaligned(const void* p) { T v; memcpy(&v, p, sizeof v); return v; }
template <class T> inline void storeUnaligned(void* p, T v) { memcpy(p, &v, sizeof v); }
}
