// Concurrent workloads: schedule perturbation, thread teams, instrumented types.
#pragma once
#ifdef VF_BOOST
#include <boost/thread/locks.hpp>
#include <boost/thread/shared_mutex.hpp>
#endif
#ifdef VF_ABSL
#include <absl/synchronization/mutex.h>
#endif
#include "hash_specs.hpp"
#include <array>
#include <barrier>
#include <sched.h>
#include <shared_mutex>

namespace vf {
inline std::atomic<unsigned> g_perturb{ 0 }; // per mille
struct TRng { uint64_t s = 88172645463325252ull; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } };
inline thread_local TRng t_rng;
inline void perturb() {
    unsigned p = g_perturb.load(std::memory_order_relaxed);
    if (!p) return;
    uint64_t x = t_rng.next();
    if ((x >> 20) % 1000 >= p) return;
    switch (x & 7) {
    case 0: usleep(useconds_t(x >> 60) * 4); break;
    case 1: case 2: case 3: sched_yield(); break;
    default: { volatile int k = 0; for (int i = 0; i < int((x >> 8) & 1023); ++i) k = k + 1; }
    }
}
// stateless: swap exchanges the hash functions, and the hash is needed before a lock can be taken
inline int g_hmode = 0;
struct PHash { size_t operator()(int64_t k) const { perturb(); return weak_hash(g_hmode, uint64_t(k)); } };
struct PEq { bool operator()(int64_t a, int64_t b) const { perturb(); return a == b; } };

// two words: a torn or unprotected read is seen
struct Val {
    int64_t a = 0, b = ~int64_t(0);
    Val() = default; Val(int64_t x) : a(x), b(~x) {}
    int64_t get() const { int64_t x = a; perturb(); VCHECK(b == ~x, "torn", "a value is seen half written (%llx, %llx)", (unsigned long long)x, (unsigned long long)b); return x; }
    void set(int64_t x) { a = x; perturb(); b = ~x; }
    bool operator==(const Val& o) const { return a == o.a; }
};

// an exclusive mutex that knows its owner; held locks are counted per thread
inline thread_local int t_held = 0;
struct MonMutex {
    std::mutex m;
    void lock() { perturb(); m.lock(); ++t_held; perturb(); }
    bool try_lock() { if (m.try_lock()) { ++t_held; return true; } return false; }
    void unlock() { --t_held; m.unlock(); perturb(); }
};

template<class F> void team(int n, uint64_t seed, F f) {
    std::barrier bar(n); std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { t_rng.s = mix64(seed + uint64_t(t)) | 1; bar.arrive_and_wait(); f(t); });
    for (auto& t : ts) t.join();
}
template<class K> struct PairAlloc;
template<size_t N, class M> using PFM = gtl::parallel_flat_hash_map<int64_t, Val, PHash, PEq, std::allocator<std::pair<const int64_t, Val>>, N, M>;
template<size_t N, class M> using PNM = gtl::parallel_node_hash_map<int64_t, Val, PHash, PEq, std::allocator<std::pair<const int64_t, Val>>, N, M>;
template<size_t N, class M> using PFS = gtl::parallel_flat_hash_set<int64_t, PHash, PEq, std::allocator<int64_t>, N, M>;
template<size_t N, class M> using PNS = gtl::parallel_node_hash_set<int64_t, PHash, PEq, std::allocator<int64_t>, N, M>;
// the same container without locks
template<class C> struct NoLock;
template<template<class, class, class, class, class, size_t, class...> class T, class K, class V, class H, class E, class A, size_t N, class M, class... X> struct NoLock<T<K, V, H, E, A, N, M, X...>> { using type = T<K, V, H, E, A, N, gtl::NullMutex, X...>; };
template<template<class, class, class, class, size_t, class...> class T, class K, class H, class E, class A, size_t N, class M, class... X> struct NoLock<T<K, H, E, A, N, M, X...>> { using type = T<K, H, E, A, N, gtl::NullMutex, X...>; };
} // namespace vf
