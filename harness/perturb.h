// Schedule perturbation: the link wraps the lock and condition variable entry points
// (ld --wrap, see vbuild.WRAPS) of every object, including the code under test, and yields,
// spins or sleeps around them under a per-thread seeded generator.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <ctime>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include "vh.h"

namespace vh::perturb {
inline std::atomic<int>& level() { static std::atomic<int> l{0}; return l; }  // 0 off, 1..100 = percent
inline std::atomic<std::uint64_t>& hits() { static std::atomic<std::uint64_t> h{0}; return h; }
inline std::atomic<std::uint64_t>& sched_hash() { static std::atomic<std::uint64_t> h{0}; return h; }
inline thread_local std::uint64_t tl_state = 0;
inline void seed_thread(std::uint64_t s) { tl_state = vh::mix(s) | 1U; }
inline void point(unsigned site) {
    int l = level().load(std::memory_order_relaxed);
    if (l == 0) return;
    if (tl_state == 0) {
        static std::atomic<std::uint64_t> n{1};
        tl_state = vh::mix(vh::seed() * 1000003U + n.fetch_add(1, std::memory_order_relaxed)) | 1U;
    }
    tl_state = tl_state * 6364136223846793005ULL + 1442695040888963407ULL;
    auto v = tl_state >> 33;
    if (static_cast<int>(v % 100) >= l) return;
    hits().fetch_add(1, std::memory_order_relaxed);
    (void) site;
    switch ((v / 100) % 4) {
        case 0: sched_yield(); break;
        case 1: for (volatile unsigned i = 0; i < (v / 400) % 2000; i = i + 1) {} break;
        case 2: { timespec ts{0, static_cast<long>(1000 + (v / 400) % 60000)}; nanosleep(&ts, nullptr); break; }
        default: sched_yield(); sched_yield(); break;
    }
}
}
#ifdef VH_PERTURB_IMPL
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    vh::perturb::point(1);
    int r = __real_pthread_mutex_lock(m);
    vh::perturb::point(2);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    vh::perturb::point(3);
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    vh::perturb::point(4);
    return __real_pthread_mutex_trylock(m);
}
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    vh::perturb::point(9);
    return __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    vh::perturb::point(10);
    return __real_pthread_cond_timedwait(c, m, t);
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) {
    vh::perturb::point(5);
    __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
    vh::perturb::point(6);
    __real__ZNSt18condition_variable10notify_allEv(c);
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>& l) {
    vh::perturb::point(7);
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
    vh::perturb::point(8);
}
}
#endif
