#pragma once
#define FOLLY_LIKELY(x) (x)
#define FOLLY_UNLIKELY(x) (x)
#ifndef LIKELY
#define LIKELY(x) (x)
#define UNLIKELY(x) (x)
#endif
