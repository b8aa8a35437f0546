// Link-time interposition on absl::Mutex.  The installed Abseil library is not
// instrumented, so ThreadSanitizer would not see its locks: these wrappers
// announce them.  They also inject scheduling delays around lock operations.
#include <sched.h>
#include <time.h>
#include <atomic>
#include <cstdint>

#include "wrap_mu.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
extern "C" {
void __tsan_mutex_pre_lock(void*, unsigned);
void __tsan_mutex_post_lock(void*, unsigned, int);
int __tsan_mutex_pre_unlock(void*, unsigned);
void __tsan_mutex_post_unlock(void*, unsigned);
void __tsan_mutex_destroy(void*, unsigned);
}
#endif
#endif
#ifndef TSAN
#define __tsan_mutex_pre_lock(m, f)
#define __tsan_mutex_post_lock(m, f, r)
#define __tsan_mutex_pre_unlock(m, f)
#define __tsan_mutex_post_unlock(m, f)
#define __tsan_mutex_destroy(m, f)
#endif

namespace wrapmu {
namespace {
std::atomic<bool> g_delay{false};
thread_local uint64_t t_rng = 0;
thread_local long t_locks = 0;
}  // namespace
void SetDelay(bool on) { g_delay.store(on, std::memory_order_relaxed); }
void SeedThread(uint64_t s) { t_rng = s | 1; }
long ThreadLocks() { return t_locks; }
void Delay() {
  if (!g_delay.load(std::memory_order_relaxed)) return;
  t_rng ^= t_rng << 13;
  t_rng ^= t_rng >> 7;
  t_rng ^= t_rng << 17;
  unsigned d = static_cast<unsigned>(t_rng >> 40) & 63;
  if (d < 8) sched_yield();
  else if (d == 8) { timespec ts{0, static_cast<long>(1000 + (t_rng & 0xffff))}; nanosleep(&ts, nullptr); }
}
}  // namespace wrapmu

extern "C" {
#define LOCK(sym, flags)                      \
  void __real_##sym(void* m);                 \
  void __wrap_##sym(void* m) {                \
    wrapmu::Delay();                          \
    wrapmu::t_locks++;                        \
    __tsan_mutex_pre_lock(m, flags);          \
    __real_##sym(m);                          \
    __tsan_mutex_post_lock(m, flags, 0);      \
    wrapmu::Delay();                          \
  }
#define UNLOCK(sym, flags)                    \
  void __real_##sym(void* m);                 \
  void __wrap_##sym(void* m) {                \
    __tsan_mutex_pre_unlock(m, flags);        \
    __real_##sym(m);                          \
    __tsan_mutex_post_unlock(m, flags);       \
    wrapmu::Delay();                          \
  }
// flags: 2 = read lock, 4 = try lock, 8 = failed try lock.
#define TRYLOCK(sym, flags)                                        \
  bool __real_##sym(void* m);                                      \
  bool __wrap_##sym(void* m) {                                     \
    __tsan_mutex_pre_lock(m, (flags) | 4);                         \
    bool ok = __real_##sym(m);                                     \
    __tsan_mutex_post_lock(m, (flags) | 4 | (ok ? 0u : 8u), 0);    \
    return ok;                                                     \
  }
LOCK(_ZN4absl7debian35Mutex4LockEv, 0)
UNLOCK(_ZN4absl7debian35Mutex6UnlockEv, 0)
TRYLOCK(_ZN4absl7debian35Mutex7TryLockEv, 0)
LOCK(_ZN4absl7debian35Mutex10ReaderLockEv, 2)
UNLOCK(_ZN4absl7debian35Mutex12ReaderUnlockEv, 2)
TRYLOCK(_ZN4absl7debian35Mutex13ReaderTryLockEv, 2)
void __real__ZN4absl7debian35MutexD1Ev(void* m);
void __wrap__ZN4absl7debian35MutexD1Ev(void* m) {
  __tsan_mutex_destroy(m, 0);
  __real__ZN4absl7debian35MutexD1Ev(m);
}
}
