// Schedule points around every atomic operation of instrumented code: linked with -Wl,--wrap=__tsan_atomic*.
#include <cstdint>
extern "C" void chaos_point();
extern "C" uint64_t chaos_rand(uint64_t);
static inline void pt() { if (chaos_rand(4) == 0) chaos_point(); }
#define W(bits, T) \
  extern "C" T __real___tsan_atomic##bits##_load(const volatile T*, int); \
  extern "C" T __wrap___tsan_atomic##bits##_load(const volatile T* p, int m) { pt(); T r = __real___tsan_atomic##bits##_load(p, m); pt(); return r; } \
  extern "C" void __real___tsan_atomic##bits##_store(volatile T*, T, int); \
  extern "C" void __wrap___tsan_atomic##bits##_store(volatile T* p, T v, int m) { pt(); __real___tsan_atomic##bits##_store(p, v, m); pt(); } \
  extern "C" T __real___tsan_atomic##bits##_fetch_add(volatile T*, T, int); \
  extern "C" T __wrap___tsan_atomic##bits##_fetch_add(volatile T* p, T v, int m) { pt(); T r = __real___tsan_atomic##bits##_fetch_add(p, v, m); pt(); return r; } \
  extern "C" T __real___tsan_atomic##bits##_fetch_sub(volatile T*, T, int); \
  extern "C" T __wrap___tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int m) { pt(); T r = __real___tsan_atomic##bits##_fetch_sub(p, v, m); pt(); return r; } \
  extern "C" T __real___tsan_atomic##bits##_exchange(volatile T*, T, int); \
  extern "C" T __wrap___tsan_atomic##bits##_exchange(volatile T* p, T v, int m) { pt(); T r = __real___tsan_atomic##bits##_exchange(p, v, m); pt(); return r; }
W(32, uint32_t)
W(64, uint64_t)
