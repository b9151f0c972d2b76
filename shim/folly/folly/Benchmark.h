#pragma once
namespace folly { inline void runBenchmarks() {} }
