#pragma once
#include <cstddef>
#include <cstdint>
namespace folly {
inline uint32_t crc32c(const uint8_t* data, size_t nbytes, uint32_t start = ~0U) {
  uint32_t c = start;
  for (size_t i = 0; i < nbytes; ++i) { c ^= data[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1))); }
  return c;
}
}
