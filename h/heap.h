// Counts live heap allocations of the whole program. Include in exactly one translation unit.
#pragma once
#include <cstdlib>
#include <new>
inline long gLiveAllocs = 0;
#if defined(__clang__) || defined(__GNUC__)
  #if defined(__SANITIZE_ADDRESS__)
    #define HEAP_COUNT 0
  #elif defined(__has_feature)
    #if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
      #define HEAP_COUNT 0
    #else
      #define HEAP_COUNT 1
    #endif
  #else
    #define HEAP_COUNT 1
  #endif
#endif
#if HEAP_COUNT
void * operator new(std::size_t n)
{
  void * p = std::malloc(n ? n : 1);
  if (!p) {
    throw std::bad_alloc();
  }
  ++gLiveAllocs;
  return p;
}
void operator delete(void * p) noexcept
{
  if (p) {
    --gLiveAllocs;
    std::free(p);
  }
}
void operator delete(void * p, std::size_t) noexcept
{
  operator delete(p);
}
#endif
