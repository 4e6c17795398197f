// Allocation monitor: counts live memory, refuses absurd requests the way a small machine would, and
// can fill fresh memory with a chosen byte so that reads of uninitialised memory change the outcome.
#include "harness.hpp"
#include <atomic>
#include <malloc.h>
#include <new>

namespace {
std::atomic<int64_t> live_bytes{0}, live_blocks{0}, peak{0}, total{0};
std::atomic<int> fill_byte{-1};
std::atomic<uint64_t> cap{1ull << 28};

void *get(size_t n, size_t al) {
  if (n > cap.load(std::memory_order_relaxed)) throw std::bad_alloc();
  void *p = nullptr;
  if (al <= alignof(std::max_align_t)) p = std::malloc(n ? n : 1);
  else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  if (!p) throw std::bad_alloc();
  const int f = fill_byte.load(std::memory_order_relaxed);
  if (f >= 0) std::memset(p, f, n);
  const int64_t sz = int64_t(malloc_usable_size(p));
  const int64_t now = live_bytes.fetch_add(sz, std::memory_order_relaxed) + sz;
  live_blocks.fetch_add(1, std::memory_order_relaxed);
  total.fetch_add(1, std::memory_order_relaxed);
  int64_t pk = peak.load(std::memory_order_relaxed);
  while (now > pk && !peak.compare_exchange_weak(pk, now, std::memory_order_relaxed)) {}
  return p;
}
void put(void *p) noexcept {
  if (!p) return;
  live_bytes.fetch_sub(int64_t(malloc_usable_size(p)), std::memory_order_relaxed);
  live_blocks.fetch_sub(1, std::memory_order_relaxed);
  std::free(p);
}
} // namespace

void *operator new(size_t n) { return get(n, 1); }
void *operator new[](size_t n) { return get(n, 1); }
void *operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return get(n, 1); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return get(n, 1); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }

namespace hn {
AllocStats alloc_stats() { return {uint64_t(live_bytes.load()), uint64_t(live_blocks.load()), uint64_t(peak.load()), uint64_t(total.load())}; }
void alloc_reset_peak() { peak.store(live_bytes.load()); }
void alloc_fill(int b) { fill_byte.store(b); }
void alloc_cap(uint64_t b) { cap.store(b); }
} // namespace hn
