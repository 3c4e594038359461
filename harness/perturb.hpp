// Schedule perturbation: every allocation of the code under test is a point
// where the running thread may be delayed. To be included by one translation
// unit only.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sched.h>
#include <time.h>

namespace vf::perturb {
inline std::atomic<std::uint32_t> level{0}; // 0: off, otherwise one point out of level is delayed
inline std::atomic<std::uint64_t> delays{0};
inline std::atomic<std::uint32_t> threadCounter{0};

#ifdef VF_TSAN
__attribute__((no_sanitize("thread")))
#endif
inline void point() {
  std::uint32_t lv = level.load(std::memory_order_relaxed);
  if (lv == 0)
    return;
  static thread_local std::uint64_t s = 0;
  if (s == 0)
    s = 0x9e3779b97f4a7c15ULL * (1 + threadCounter.fetch_add(1, std::memory_order_relaxed));
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  if (s % lv)
    return;
  delays.fetch_add(1, std::memory_order_relaxed);
  if ((s >> 32) % 4) {
    sched_yield();
  } else {
    timespec t{0, static_cast<long>((s >> 40) % 60000)};
    nanosleep(&t, nullptr);
  }
}
} // namespace vf::perturb

#ifdef VF_TSAN
// the operators of the sanitizer are kept, their hook is used
extern "C" __attribute__((no_sanitize("thread"))) void __sanitizer_malloc_hook(const volatile void *,
                                                                               std::size_t) {
  vf::perturb::point();
}
#else
void *operator new(std::size_t n) {
  vf::perturb::point();
  if (void *p = std::malloc(n ? n : 1))
    return p;
  throw std::bad_alloc{};
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
#endif
