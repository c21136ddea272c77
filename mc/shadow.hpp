// Builds with AddressSanitizer and UndefinedBehaviorSanitizer: nodes and numbers that were handed back to their
// table are marked as well, so that touching one is reported like touching released memory.
#pragma once
#include <cstddef>
#include <sanitizer/asan_interface.h>
extern "C" inline __attribute__((used)) void ddStorageReturned(const void* p, std::size_t n) { __asan_poison_memory_region(p, n); }
extern "C" inline __attribute__((used)) void ddStorageTaken(const void* p, std::size_t n) { __asan_unpoison_memory_region(p, n); }
