// Common machinery of all drivers: deterministic random numbers, per-case
// progress, violation reporting, hang watchdog, evidence counters, and the
// instrumented types (elements, hashers, allocators) which act as monitors.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {

// ------------------------------------------------------------------ random
inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x1234567)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31); }
    size_t   below(size_t n) { return n ? size_t(next() % n) : 0; }
    size_t   range(size_t a, size_t b) { return a + below(b - a + 1); } // inclusive
    bool     chance(unsigned pct) { return below(100) < pct; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------------ global driver state
struct Progress { std::atomic<uint64_t> cur; };
inline Progress   g_dummy_progress;
inline Progress*  g_progress = &g_dummy_progress;
inline const char* g_mode = "";
inline uint64_t   g_seed = 1;
inline bool       g_value = false; // prefer copies, moves, swaps and comparisons
inline bool       g_trace = false; // print each operation (replay)
inline std::map<std::string, uint64_t>& stats() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
inline std::mutex& out_mutex() { static auto* m = new std::mutex; return *m; }
inline uint64_t& cnt(const char* k) { return stats()[k]; }
inline void stat_max(const char* k, uint64_t v) { auto& s = stats()[k]; if (v > s) s = v; }
inline std::vector<uint64_t>& case_hashes() { static auto* v = new std::vector<uint64_t>; return *v; }
inline int& samples_left() { static int n = 1; return n; }

// recent operations of the current case, kept for reports
struct OpLog {
    std::vector<std::string> ops;
    uint64_t                 h = 0, n = 0;
    bool                     keep = false;
    void reset() { ops.clear(); h = 0; n = 0; }
    void add(const char* name, uint64_t a = 0, uint64_t b = 0) {
        ++n;
        uint64_t x = 1469598103934665603ull;
        for (const char* p = name; *p; ++p) x = (x ^ (unsigned char)*p) * 1099511628211ull;
        h = mix64(h ^ x ^ mix64(a * 3 + 1) ^ mix64(b * 7 + 5));
        if (keep || g_trace) {
            char buf[160];
            snprintf(buf, sizeof buf, "%s(%llu,%llu)", name, (unsigned long long)a, (unsigned long long)b);
            if (g_trace) { fprintf(stderr, "  op %s\n", buf); }
            if (ops.size() < 60) ops.push_back(buf);
        }
    }
};
inline OpLog& oplog() { static auto* o = new OpLog; return *o; }

[[noreturn]] inline void violation(const char* key, const char* fmt, ...) {
    // stop other reports: first one wins
    static std::atomic<int> once{ 0 };
    if (once.fetch_add(1) != 0) { for (;;) pause(); }
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fflush(stdout);
    printf("\n@VIOL key=%s case=%llu msg=%s\n", key, (unsigned long long)g_progress->cur.load(), buf);
    fflush(stdout);
    _exit(77);
}
#define VCHECK(cond, key, ...) do { if (!(cond)) ::vf::violation(key, __VA_ARGS__); } while (0)

inline void finding(const char* key, const char* msg) { printf("@FINDING key=%s msg=%s\n", key, msg); }

// hang watchdog: a case which makes no progress for hang_limit seconds of wall time
inline unsigned hang_limit = 90;
inline void on_timer(int) {
    static uint64_t last = ~0ull; static unsigned ticks = 0;
    uint64_t cur = g_progress->cur.load(std::memory_order_relaxed);
    if (cur != last) { last = cur; ticks = 0; return; }
    if (++ticks >= hang_limit) {
        char b[128]; int n = snprintf(b, sizeof b, "\n@HANG case=%llu\n", (unsigned long long)cur);
        if (write(1, b, size_t(n)) < 0) {}
        _exit(78);
    }
}
inline void beat() { g_progress->cur.fetch_add(0); }

using CaseFn = void (*)(Rng& rng, uint64_t idx);

inline int run_main(int argc, char** argv, const std::vector<std::pair<std::string, CaseFn>>& modes) {
    if (argc < 5) { fprintf(stderr, "usage: driver MODE SEED FROM TO [PROGRESS [HASHES]] (TRACE=1)\n"); return 2; }
    g_mode = argv[1];
    g_seed = strtoull(argv[2], nullptr, 10);
    uint64_t from = strtoull(argv[3], nullptr, 10), to = strtoull(argv[4], nullptr, 10);
    if (argc > 5) {
        int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) g_progress = static_cast<Progress*>(p);
        }
    }
    g_trace = getenv("TRACE") != nullptr;
    g_value = !strcmp(g_mode, "value");
    if (const char* h = getenv("HANG_LIMIT")) hang_limit = unsigned(atoi(h));
    CaseFn fn = nullptr;
    for (auto& m : modes) if (m.first == g_mode) fn = m.second;
    if (!fn) { fprintf(stderr, "unknown mode %s\n", g_mode); return 2; }
    struct sigaction sa {}; sa.sa_handler = on_timer; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{ { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &tv, nullptr);
#ifndef VF_SALT
#define VF_SALT 0
#endif
    uint64_t mode_salt = mix64(VF_SALT);
    for (const char* p = g_mode; *p; ++p) mode_salt = mix64(mode_salt ^ (unsigned char)*p);
    for (uint64_t i = from; i < to; ++i) {
        g_progress->cur.store(i);
        Rng rng(mix64(g_seed) ^ mix64(i * 2654435761u + 17) ^ mode_salt);
        oplog().reset();
        oplog().keep = samples_left() > 0;
        fn(rng, i);
        cnt("cases")++;
        cnt("ops") += oplog().n;
        case_hashes().push_back(oplog().h);
        if (samples_left() > 0 && oplog().n >= 3) {
            --samples_left();
            std::string s = "@SAMPLE case " + std::to_string(i) + ":";
            for (size_t k = 0; k < oplog().ops.size() && k < 25; ++k) s += " " + oplog().ops[k];
            if (oplog().n > 25) s += " ... (" + std::to_string(oplog().n) + " ops)";
            puts(s.c_str());
        }
    }
    if (argc > 6) {
        if (FILE* f = fopen(argv[6], "wb")) {
            fwrite(case_hashes().data(), 8, case_hashes().size(), f);
            fclose(f);
        }
    }
    for (auto& kv : stats()) printf("@STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    printf("@DONE\n");
    fflush(stdout);
    return 0;
}

// ------------------------------------------------------------------ fault injection
struct Fault : std::exception { const char* what() const noexcept override { return "injected fault"; } };
enum FaultKind { F_CTOR, F_HASH, F_EQ, F_ALLOC, F_ASSIGN, F_CALL, F_CMP, F_NKINDS };
// -1: disabled; n > 0: the n-th event from now throws
inline thread_local long g_fault[F_NKINDS] = { -1, -1, -1, -1, -1, -1, -1 };
inline thread_local bool g_fault_fired = false;
inline thread_local uint64_t g_events[F_NKINDS] = {};
inline void fault_point(FaultKind k) {
    ++g_events[k];
    if (g_fault[k] > 0 && --g_fault[k] == 0) {
        g_fault[k] = -1; g_fault_fired = true;
        throw Fault();
    }
}
inline void arm(FaultKind k, long n) { g_fault[k] = n; g_fault_fired = false; }
inline void disarm() { for (auto& f : g_fault) f = -1; }

// ------------------------------------------------------------------ tracked elements
// Each object knows its own address and whether it is alive. Bitwise relocation,
// double destruction, use of a dead or never constructed object, and leaks are seen.
inline std::atomic<long> g_live{ 0 };
constexpr uint64_t ALIVE = 0xA11CE0B7EC7ull, DEAD = 0xDEADDEADDEADull;
template<bool MoveNoexcept = true>
struct ObjT {
    uint64_t tag;
    int64_t  v;
    bool     moved = false;
    uint64_t alive_tag() const { return ALIVE ^ reinterpret_cast<uintptr_t>(this); }
    void init() { tag = alive_tag(); g_live.fetch_add(1, std::memory_order_relaxed); }
    void check(const char* what) const {
        if (tag != alive_tag()) violation("lifetime", "%s on an object that is not alive (tag %llx)", what, (unsigned long long)tag);
    }
    ObjT() : v(0) { fault_point(F_CTOR); init(); }
    ObjT(int64_t x) : v(x) { fault_point(F_CTOR); init(); }
    ObjT(const ObjT& o) : v((o.check("copy from"), o.v)), moved(o.moved) { fault_point(F_CTOR); init(); }
    ObjT(ObjT&& o) noexcept(MoveNoexcept) : v((o.check("move from"), o.v)), moved(o.moved) {
        if constexpr (!MoveNoexcept) fault_point(F_CTOR);
        o.moved = true; o.v = -777; init(); }
    ObjT& operator=(const ObjT& o) { check("assign to"); o.check("assign from"); fault_point(F_ASSIGN); v = o.v; moved = o.moved; return *this; }
    ObjT& operator=(ObjT&& o) noexcept(MoveNoexcept) { check("assign to"); o.check("assign from");
        if constexpr (!MoveNoexcept) fault_point(F_ASSIGN);
        if (this != &o) { v = o.v; moved = o.moved; o.v = -777; o.moved = true; } return *this; }
    ~ObjT() { check("destruction"); tag = DEAD; g_live.fetch_sub(1, std::memory_order_relaxed); }
    int64_t get() const { check("read"); if (moved) violation("moved-from", "a moved-from element is visible in a container"); return v; }
    friend bool operator==(const ObjT& a, const ObjT& b) { return a.get() == b.get(); }
    friend bool operator!=(const ObjT& a, const ObjT& b) { return !(a == b); }
    friend bool operator<(const ObjT& a, const ObjT& b) { return a.get() < b.get(); }
};
using Obj = ObjT<true>;

// ------------------------------------------------------------------ tracked allocator
struct AllocRec { size_t bytes; int id; size_t align; };
struct AllocTable {
    std::mutex                          m;
    std::unordered_map<void*, AllocRec> live;
    uint64_t                            n_alloc = 0, n_free = 0;
};
inline AllocTable& alloc_table() { static auto* t = new AllocTable; return *t; }
inline size_t live_allocs() { std::lock_guard<std::mutex> l(alloc_table().m); return alloc_table().live.size(); }

// COPY/MOVE/SWAP: the propagation traits
template<class T, bool COPY = false, bool MOVE = false, bool SWAP = false>
struct TAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, COPY>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, MOVE>;
    using propagate_on_container_swap            = std::integral_constant<bool, SWAP>;
    using is_always_equal                        = std::false_type;
    template<class U> struct rebind { using other = TAlloc<U, COPY, MOVE, SWAP>; };
    int id;
    explicit TAlloc(int i = 0) noexcept : id(i) {}
    template<class U> TAlloc(const TAlloc<U, COPY, MOVE, SWAP>& o) noexcept : id(o.id) {}
    T* allocate(size_t n) {
        fault_point(F_ALLOC);
        void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
        memset(p, 0xA5, n * sizeof(T));
        auto& t = alloc_table();
        std::lock_guard<std::mutex> l(t.m);
        t.live[p] = AllocRec{ n * sizeof(T), id, alignof(T) };
        ++t.n_alloc;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n) noexcept {
        auto& t = alloc_table();
        {
            std::lock_guard<std::mutex> l(t.m);
            auto it = t.live.find(p);
            if (it == t.live.end()) violation("alloc-unknown", "deallocate of %p which is not allocated", (void*)p);
            if (it->second.bytes != n * sizeof(T)) violation("alloc-size", "deallocate with size %zu, allocated %zu", n * sizeof(T), it->second.bytes);
            if (it->second.id != id) violation("alloc-owner", "memory of allocator %d returned to allocator %d", it->second.id, id);
            t.live.erase(it);
            ++t.n_free;
        }
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
    friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
    friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};

inline void check_no_leaks(const char* where) {
    long l = g_live.load();
    VCHECK(l == 0, "leak-elements", "%s: %ld elements alive after all containers are gone", where, l);
    VCHECK(live_allocs() == 0, "leak-memory", "%s: %zu blocks still allocated", where, live_allocs());
}

} // namespace vf
