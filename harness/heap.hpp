// Control over what freshly allocated memory contains, and an allocation balance.
//
// The program's malloc family is interposed (not under sanitizers or valgrind, which have their own):
// new blocks are filled with a chosen byte, freed blocks with its complement, and the number of live
// blocks is counted. Include from exactly one translation unit of a driver.
#pragma once
#include <alloca.h>
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#include <atomic>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(VH_NO_HEAP)
#define VH_HEAP 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define VH_HEAP 0
#else
#define VH_HEAP 1
#endif
#else
#define VH_HEAP 1
#endif

namespace heap {
inline int g_fill = -1;                 // -1: leave alone
inline std::atomic<long> g_live{0};     // live blocks
inline std::atomic<long> g_allocs{0};   // allocations so far

inline void fill(int byte) { g_fill = byte; }
inline long live() { return g_live.load(); }
inline long allocs() { return g_allocs.load(); }

// Overwrite the stack below the caller.
__attribute__((noinline)) inline void poison_stack(int byte) {
  volatile char* p = static_cast<volatile char*>(alloca(48 * 1024));
  for (int i = 0; i < 48 * 1024; ++i) p[i] = static_cast<char>(byte);
}

inline void set_memory(int byte) {
  fill(byte);
  if (byte >= 0) poison_stack(byte);
}
}  // namespace heap

#if VH_HEAP
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

inline void* vh_note_alloc(void* p, size_t n) {
  if (p) {
    heap::g_live.fetch_add(1, std::memory_order_relaxed);
    heap::g_allocs.fetch_add(1, std::memory_order_relaxed);
    if (heap::g_fill >= 0) memset(p, heap::g_fill, n);
  }
  return p;
}
__attribute__((used)) void* malloc(size_t n) { return vh_note_alloc(__libc_malloc(n), n); }
__attribute__((used)) void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (p) {
    heap::g_live.fetch_add(1, std::memory_order_relaxed);
    heap::g_allocs.fetch_add(1, std::memory_order_relaxed);
  }
  return p;
}
__attribute__((used)) void free(void* p) {
  if (!p) return;
  heap::g_live.fetch_sub(1, std::memory_order_relaxed);
  if (heap::g_fill >= 0) {
    size_t n = malloc_usable_size(p);
    volatile char* q = static_cast<volatile char*>(p);
    if (n <= 65536) {
      for (size_t i = 0; i < n; ++i) q[i] = static_cast<char>(~heap::g_fill);
    }
  }
  __libc_free(p);
}
__attribute__((used)) void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  const size_t old = malloc_usable_size(p);
  void* q = __libc_realloc(p, n);
  if (q && heap::g_fill >= 0) {
    heap::g_allocs.fetch_add(1, std::memory_order_relaxed);
    if (n > old) memset(static_cast<char*>(q) + old, heap::g_fill, n - old);
  }
  return q;
}
__attribute__((used)) void* memalign(size_t al, size_t n) { return vh_note_alloc(__libc_memalign(al, n), n); }
__attribute__((used)) void* aligned_alloc(size_t al, size_t n) { return vh_note_alloc(__libc_memalign(al, n), n); }
__attribute__((used)) int posix_memalign(void** out, size_t al, size_t n) {
  void* p = vh_note_alloc(__libc_memalign(al, n), n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
}
#endif
