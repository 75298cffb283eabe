// Stand-in for the dependency that is not part of the repository: parcpy copies len bytes.
#pragma once
#include <cstring>
#include <cstdint>
namespace ThreadUtils { void parcpy(void *dst, const void *src, uint64_t len, int nThreads); }
