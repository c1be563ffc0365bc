// Own run-time for code compiled with -fsanitize=thread: the compiler calls these functions for every memory access of
// the instrumented code; libtsan is not linked. on_access(address, size, is_write) is supplied by the checker.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#define NOTSAN __attribute__((no_sanitize("thread")))
static bool g_on = false;          // recording
static int g_guard = 0;            // inside the initialization of a function-local static object
NOTSAN static void on_access(const volatile void* p, size_t n, bool w);
extern "C" {
NOTSAN void __tsan_init() {}
NOTSAN void __tsan_func_entry(void*) {}
NOTSAN void __tsan_func_exit() {}
#define ACC(NAME, N, W) NOTSAN void __tsan_##NAME(void* p) { if (g_on) on_access(p, N, W); }
#define SIZES(N) ACC(read##N, N, false) ACC(write##N, N, true) ACC(unaligned_read##N, N, false) ACC(unaligned_write##N, N, true) ACC(volatile_read##N, N, false) ACC(volatile_write##N, N, true) \
    ACC(unaligned_volatile_read##N, N, false) ACC(unaligned_volatile_write##N, N, true)  \
    NOTSAN void __tsan_read_write##N(void* p) { if (g_on) { on_access(p, N, false); on_access(p, N, true); } } NOTSAN void __tsan_unaligned_read_write##N(void* p) { if (g_on) { on_access(p, N, false); on_access(p, N, true); } }
SIZES(1) SIZES(2) SIZES(4) SIZES(8) SIZES(16)
NOTSAN void __tsan_vptr_update(void** p, void*) { if (g_on) on_access(p, 8, true); }
NOTSAN void __tsan_vptr_read(void** p) { if (g_on) on_access(p, 8, false); }
NOTSAN void __tsan_read_range(void* p, size_t n) { if (g_on) on_access(p, n, false); }
NOTSAN void __tsan_write_range(void* p, size_t n) { if (g_on) on_access(p, n, true); }
NOTSAN static void cpy(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; if (a < b) for (size_t i = 0; i < n; ++i) { a[i] = b[i]; asm volatile("" ::: "memory"); } else for (size_t i = n; i--; ) { a[i] = b[i]; asm volatile("" ::: "memory"); } }
NOTSAN static void rec_cpy(void* d, const void* s, size_t n) { if (g_on && n) { on_access(s, n, false); on_access(d, n, true); } }
NOTSAN void* __tsan_memcpy(void* d, const void* s, size_t n) { rec_cpy(d, s, n); cpy(d, s, n); return d; }
NOTSAN void* __tsan_memmove(void* d, const void* s, size_t n) { rec_cpy(d, s, n); cpy(d, s, n); return d; }
NOTSAN void* __tsan_memset(void* d, int c, size_t n) { if (g_on && n) on_access(d, n, true); for (size_t i = 0; i < n; ++i) { ((char*)d)[i] = char(c); asm volatile("" ::: "memory"); } return d; }
// calls of the C functions by the instrumented code (linked with --wrap)
NOTSAN void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
NOTSAN void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
NOTSAN void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
NOTSAN int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r) ++g_guard; return r; }
NOTSAN void __wrap___cxa_guard_release(void* g) { --g_guard; __real___cxa_guard_release(g); }
NOTSAN void __wrap___cxa_guard_abort(void* g) { --g_guard; __real___cxa_guard_abort(g); }
// atomic operations never race
#define ATOM(N, T) NOTSAN T __tsan_atomic##N##_load(const volatile T* p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); } NOTSAN void __tsan_atomic##N##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    NOTSAN T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } NOTSAN T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    NOTSAN T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } NOTSAN T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    NOTSAN T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } NOTSAN T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    NOTSAN int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    NOTSAN int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    NOTSAN T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
NOTSAN void __tsan_atomic_thread_fence(int) {} NOTSAN void __tsan_atomic_signal_fence(int) {}
}
