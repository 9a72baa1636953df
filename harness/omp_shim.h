// A small OpenMP runtime on plain threads, in front of libgomp (which ThreadSanitizer cannot see
// into): `g++ -fopenmp -fsanitize=thread -include omp_shim.h`. The number of threads differs from
// region to region, so the same loop is divided in different ways.
#ifndef OMP_SHIM_H
#define OMP_SHIM_H
#include "mon.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <omp.h>
#include <pthread.h>
#include <thread>
#include <utility>
namespace shim {
struct Loop {
    unsigned long long next, end, chunk;
    bool up;
    unsigned long long incr;
};
struct Team {
    unsigned n;
    pthread_barrier_t bar;
    std::mutex m;
    std::map<unsigned, Loop> loops; // work sharing constructs, in order of appearance
    std::map<unsigned, bool> singles;
};
inline thread_local Team* team = nullptr;
inline thread_local unsigned id = 0;
inline thread_local unsigned nloop = 0, nsingle = 0;
inline thread_local Loop* cur = nullptr;
inline std::mutex& global()
{
    static std::mutex m;
    return m;
}
inline unsigned threads()
{
    static mon::Rng r(12345);
    return (unsigned)r.range(2, 5);
}
inline void run(void (*fn)(void*), void* data, unsigned n, const Loop* first = nullptr)
{
    if (n == 0) n = team ? 1 : threads();
    Team t;
    t.n = n;
    pthread_barrier_init(&t.bar, nullptr, n);
    if (first) t.loops[0] = *first;
    auto body = [&](unsigned i) {
        Team* ot = team;
        unsigned oi = id, ol = nloop, os = nsingle;
        Loop* oc = cur;
        team = &t, id = i, nloop = 0, nsingle = 0, cur = nullptr;
        if (first) {
            std::lock_guard<std::mutex> g(t.m);
            cur = &t.loops[nloop++];
        }
        fn(data);
        team = ot, id = oi, nloop = ol, nsingle = os, cur = oc;
    };
    std::vector<std::thread> th;
    for (unsigned i = 1; i < n; ++i) th.emplace_back(body, i);
    body(0);
    for (auto& i : th) i.join();
    pthread_barrier_destroy(&t.bar);
    if (!team) {
        mon::cover("omp.regions");
        mon::cover("omp.threads", n);
    }
}
inline bool next(unsigned long long* a, unsigned long long* b)
{
    if (!team) return false;
    std::lock_guard<std::mutex> g(team->m);
    Loop& l = *cur;
    if (l.up ? l.next >= l.end : (long long)l.next <= (long long)l.end) return false;
    *a = l.next;
    unsigned long long e = l.next + l.incr * l.chunk;
    if (l.up ? e > l.end : (long long)e < (long long)l.end) e = l.end;
    l.next = *b = e;
    return true;
}
inline bool start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b)
{
    {
        std::lock_guard<std::mutex> g(team->m);
        unsigned k = nloop++;
        if (!team->loops.count(k)) team->loops[k] = Loop{s, e, chunk ? chunk : 1, up, incr};
        cur = &team->loops[k];
    }
    return next(a, b);
}
} // namespace shim
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    shim::run(fn, data, n);
}
int omp_get_thread_num(void) noexcept
{
    return (int)shim::id;
}
int omp_get_num_threads(void) noexcept
{
    return shim::team ? (int)shim::team->n : 1;
}
int omp_get_max_threads(void) noexcept
{
    return 5;
}
int omp_in_parallel(void) noexcept
{
    return shim::team && shim::team->n > 1;
}
void GOMP_barrier(void)
{
    if (shim::team) pthread_barrier_wait(&shim::team->bar);
}
void GOMP_critical_start(void)
{
    shim::global().lock();
}
void GOMP_critical_end(void)
{
    shim::global().unlock();
}
void GOMP_critical_name_start(void**)
{
    shim::global().lock();
}
void GOMP_critical_name_end(void**)
{
    shim::global().unlock();
}
void GOMP_atomic_start(void)
{
    shim::global().lock();
}
void GOMP_atomic_end(void)
{
    shim::global().unlock();
}
bool GOMP_single_start(void)
{
    if (!shim::team) return true;
    std::lock_guard<std::mutex> g(shim::team->m);
    return !std::exchange(shim::team->singles[shim::nsingle++], true);
}
void GOMP_loop_end(void)
{
    GOMP_barrier();
}
void GOMP_loop_end_nowait(void) {}
#define SHIM_LOOP(NAME)                                                                                             \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,    \
                                      unsigned long long c, unsigned long long* a, unsigned long long* b)          \
    {                                                                                                               \
        return shim::start(up, s, e, i, c, a, b);                                                                   \
    }                                                                                                               \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b)                                  \
    {                                                                                                               \
        return shim::next(a, b);                                                                                    \
    }                                                                                                               \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b)                                 \
    {                                                                                                               \
        return shim::start(i > 0, s, e, i, c, (unsigned long long*)a, (unsigned long long*)b);                      \
    }                                                                                                               \
    bool GOMP_loop_##NAME##_next(long* a, long* b)                                                                  \
    {                                                                                                               \
        return shim::next((unsigned long long*)a, (unsigned long long*)b);                                          \
    }                                                                                                               \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
    {                                                                                                               \
        shim::Loop l{(unsigned long long)s, (unsigned long long)e, (unsigned long long)(c ? c : 1), i > 0, (unsigned long long)i}; \
        shim::run(fn, d, n, &l);                                                                                    \
    }
SHIM_LOOP(dynamic)
SHIM_LOOP(guided)
SHIM_LOOP(nonmonotonic_dynamic)
SHIM_LOOP(nonmonotonic_guided)
#define SHIM_RUNTIME(NAME)                                                                                          \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,    \
                                      unsigned long long* a, unsigned long long* b)                                \
    {                                                                                                               \
        return shim::start(up, s, e, i, 1, a, b);                                                                   \
    }                                                                                                               \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b)                                  \
    {                                                                                                               \
        return shim::next(a, b);                                                                                    \
    }
SHIM_RUNTIME(runtime)
SHIM_RUNTIME(maybe_nonmonotonic_runtime)
}
#endif
