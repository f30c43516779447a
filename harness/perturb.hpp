// Schedule perturbation: random delays at synchronisation operations of the code under test, injected by interposing
// pthread functions in the executable. Not used in ThreadSanitizer builds (it has to see the original functions).
// Also counts heap allocations on request of the current thread (plain builds only).
#pragma once
#include <atomic>
#include <cstdint>
#include <unistd.h>
#include <sched.h>
#include <time.h>

#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif

namespace pert {
inline std::atomic<int> level{0};           // 0 off, 1 light, 2 medium, 3 heavy
inline std::atomic<uint64_t> seedBase{1};
inline std::atomic<long> points{0}, delays{0};
inline thread_local uint64_t st = 0;
inline thread_local bool inIrq = false;     // set while an interrupt-safe call is running
inline std::atomic<long> irqAllocs{0};
inline thread_local bool quiet = false;

inline uint64_t rnd() {
    if (st == 0) st = seedBase.fetch_add(0x9E3779B97F4A7C15ull) | 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return st;
}
inline void nap(unsigned us) { struct timespec t { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; nanosleep(&t, nullptr); }
inline void point() {
    int l = level.load(std::memory_order_relaxed);
    if (l == 0 || quiet || inIrq) return;
    points.fetch_add(1, std::memory_order_relaxed);
    uint64_t r = rnd() % 1000;
    unsigned py = l == 1 ? 30 : l == 2 ? 60 : 60, ps = l == 1 ? 4 : l == 2 ? 15 : 25, pl = l == 3 ? 2 : 0;
    if (r < pl) { delays.fetch_add(1, std::memory_order_relaxed); nap(1500); }
    else if (r < pl + ps) { delays.fetch_add(1, std::memory_order_relaxed); nap(1 + (unsigned)(rnd() % (l == 1 ? 40 : 250))); }
    else if (r < pl + ps + py) sched_yield();
}
}  // namespace pert

#ifdef VH_PERTURB_IMPL
#ifndef VH_TSAN
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#define VH_REAL(ret, name, args) \
    static ret(*real_##name) args = nullptr; \
    static inline void load_##name() { if (!real_##name) real_##name = reinterpret_cast<ret(*) args>(dlsym(RTLD_NEXT, #name)); }
VH_REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
VH_REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
VH_REAL(int, pthread_cond_signal, (pthread_cond_t*))
VH_REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
VH_REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
VH_REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
VH_REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
VH_REAL(int, sem_post, (sem_t*))
VH_REAL(int, sem_wait, (sem_t*))
__attribute__((constructor(101))) static void vhLoadReal() {
    load_sem_post(); load_sem_wait();
    load_pthread_mutex_lock(); load_pthread_mutex_unlock(); load_pthread_cond_signal(); load_pthread_cond_broadcast();
    load_pthread_cond_wait(); load_pthread_cond_timedwait(); load_pthread_cond_clockwait();
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { load_pthread_mutex_lock(); pert::point(); return real_pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { load_pthread_mutex_unlock(); int r = real_pthread_mutex_unlock(m); pert::point(); return r; }
int sem_post(sem_t* m) { load_sem_post(); pert::point(); int r = real_sem_post(m); pert::point(); return r; }
int sem_wait(sem_t* m) { load_sem_wait(); pert::point(); int r = real_sem_wait(m); if (r == 0) pert::point(); return r; }
int pthread_cond_signal(pthread_cond_t* c) { load_pthread_cond_signal(); pert::point(); return real_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { load_pthread_cond_broadcast(); pert::point(); return real_pthread_cond_broadcast(c); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { load_pthread_cond_wait(); pert::point(); int r = real_pthread_cond_wait(c, m); pert::point(); return r; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { load_pthread_cond_timedwait(); pert::point(); return real_pthread_cond_timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { load_pthread_cond_clockwait(); pert::point(); return real_pthread_cond_clockwait(c, m, k, t); }
}
#ifndef VH_ASAN
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { if (pert::inIrq) pert::irqAllocs.fetch_add(1); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (pert::inIrq) pert::irqAllocs.fetch_add(1); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (pert::inIrq) pert::irqAllocs.fetch_add(1); return __libc_realloc(p, n); }
}
#endif
#endif
#endif
