// P09: mixes of locked operations under a race detector and a progress watchdog;
//      concurrent const access of every container type.
// P10: monitors inside callbacks and in the mutex.
#include "mt.hpp"
#include <execution>
#include <gtl/phmap_dump.hpp>
#include <gtl/btree.hpp>
#include <gtl/vector.hpp>
#include <gtl/bit_vector.hpp>
using namespace vf;

struct MemOut { std::string b; bool saveBinary(const void* p, size_t n) { b.append(static_cast<const char*>(p), n); return true; } };
struct MemIn { const std::string& b; size_t pos = 0; bool loadBinary(void* p, size_t n) { if (pos + n > b.size()) violation("archive", "load reads past the end"); memcpy(p, b.data() + pos, n); pos += n; return true; } };
template<class C> constexpr bool is_flat = false;
template<class K, class V, class H, class E, class A, size_t N, class M> constexpr bool is_flat<gtl::parallel_flat_hash_map<K, V, H, E, A, N, M>> = true;
template<class T, class H, class E, class A, size_t N, class M> constexpr bool is_flat<gtl::parallel_flat_hash_set<T, H, E, A, N, M>> = true;

// ------------------------------------------------------------------ P09: races and progress
template<class C, bool MAP> void race_case(Rng& r, const char* nm) {
    g_hmode = int(r.below(kHashModes));
    g_perturb = unsigned(r.pick<int>({ 0, 5, 30, 100, 300 }));
    C a(0, PHash{}, PEq{}), b(r.below(50), PHash{}, PEq{});
    size_t K = r.range(2, 60); int T = int(r.range(2, 4)); size_t n = r.range(10, 60);
    auto put = [&](auto& c, int64_t k, int64_t v) { if constexpr (MAP) c.try_emplace(k, v); else c.insert(k); };
    for (size_t i = 0; i < K; ++i) { if (r.chance(50)) put(a, int64_t(i), 1); if (r.chance(50)) put(b, int64_t(i), 2); }
    unsigned mix = unsigned(r.below(4)); // 1: whole container; 2: two containers; 3: key operations
    uint64_t seed = r.next();
    oplog().add(nm, uint64_t(T) * 100 + n, K * 10 + mix);
    oplog().add("perturb", g_perturb, uint64_t(g_hmode)); oplog().add("seed", seed);
    team(T, seed, [&](int t) {
        Rng q(seed + uint64_t(t) * 77 + 5);
        auto rd = [&](const auto& e) { if constexpr (MAP) (void)e.second.get(); else { volatile int64_t x = e; (void)x; } };
        for (size_t i = 0; i < n; ++i) {
            C& c = q.chance(50) ? a : b; C& d = &c == &a ? b : a;
            int64_t k = int64_t(q.below(K)), v = int64_t(i) + t * 1000;
            unsigned op = unsigned(q.below(37));
            if (mix == 1) op = unsigned(q.range(14, 26)); else if (mix == 2) op = unsigned(q.range(25, 36)); else if (mix == 3) op = unsigned(q.below(14));
            size_t sub = q.below(C::subcnt());
            switch (op) {
            case 0: if constexpr (MAP) c.insert(std::pair<const int64_t, Val>(k, Val(v))); else c.insert(k); break;
            case 1: if constexpr (MAP) c.emplace(k, Val(v)); else c.emplace(k); break;
            case 2: put(c, k, v); break;
            case 3: c.lazy_emplace(k, [&](const typename C::constructor& ct) { if constexpr (MAP) ct(k, Val(v)); else ct(k); }); break;
            case 4: if constexpr (MAP) c.insert_or_assign(k, Val(v)); else c.insert({ k, k + 1, k + 2 }); break;
            case 5: if constexpr (MAP) c.try_emplace_l(k, [&](auto& e) { e.second.set(e.second.get() + 1); }, v); break;
            case 6: c.lazy_emplace_l(k, [&](auto& e) { rd(e); if constexpr (MAP) e.second.set(v); }, [&](const typename C::constructor& ct) { if constexpr (MAP) ct(k, Val(v)); else ct(k); }); break;
            case 7: c.if_contains(k, [&](const auto& e) { rd(e); }); break;
            case 8: (void)c.contains(k); (void)c.count(k); break;
            case 9: c.erase(k); break;
            case 10: { bool e1 = q.chance(50); c.erase_if(k, [&](auto& e) { rd(e); if constexpr (MAP) e.second.set(v); return e1; }); break; }
            case 11: c.modify_if(k, [&](auto& e) { if constexpr (MAP) e.second.set(v); else rd(e); }); break;
            case 12: (void)(c.find(k) != c.end()); break;
            case 13: { C p(0, PHash{}, PEq{}); put(p, k, v); c.insert(p.extract(k)); break; }
            case 14: c.for_each([&](const auto& e) { rd(e); }); break;
            case 15: c.for_each_m([&](auto& e) { if constexpr (MAP) e.second.set(e.second.get() + 1); else rd(e); }); break;
            case 16: c.clear(); break;
            case 17: c.clear(sub); break;
            case 18: c.reserve(q.below(400)); break;
            case 19: c.rehash(q.pick<size_t>({ 0, 1, 30, 300 })); break;
            case 20: c.with_submap(sub, [&](const auto& s) { for (auto& e : s) rd(e); (void)s.size(); (void)s.capacity(); }); break;
            case 21: c.with_submap_m(sub, [&](auto& s) { if (q.chance(40)) s.erase(k); else if (q.chance(20)) s.clear(); else if constexpr (MAP) for (auto& e : s) e.second.set(v); }); break;
            case 22: (void)c.bucket_count(); break;
            case 23: std::as_const(c).for_each(std::execution::seq, [&](const auto& e) { rd(e); }); break;
            case 24: c.for_each_m(std::execution::seq, [&](auto& e) { if constexpr (MAP) e.second.set(v); else rd(e); }); break;
            case 25: case 34: if constexpr (is_flat<C>) { MemOut mo; c.phmap_dump(mo); if (op == 34) { MemIn mi{ mo.b }; d.phmap_load(mi); } } break;
            case 35: c.swap(d); break;
            case 36: { using L = typename NoLock<C>::type; L l(0, PHash{}, PEq{}); for (int64_t j = 0; j < 6; ++j) put(l, k + j, v); if (q.chance(50)) c.swap(l); else l.swap(c); for (auto& e : l) rd(e); break; }
            case 26: { using std::swap; swap(c, d); break; }
            case 27: c.swap(c); break;
            case 28: c.merge(d); break;
            case 29: c.merge(std::move(d)); break;
            case 30: (void)(c == d); break;
            case 31: (void)(c != d); break;
            case 32: (void)(c == c); break;
            default: c.prefetch(k); put(d, k, v); break;
            }
            VCHECK(t_held == 0, "lock-kept", "a lock is still held after operation %u [%s]", op, nm);
        }
    });
    cnt("concurrent_calls") += uint64_t(T) * n;
    size_t m = 0; for (auto& e : a) { (void)e; ++m; } VCHECK(m == a.size(), "size", "size %zu, elements %zu", a.size(), m);
    g_perturb = 0;
}
template<class C, class F> void const_team(C& c, Rng& r, const char* nm, F f) {
    int T = int(r.range(2, 4)); uint64_t seed = r.next();
    oplog().add(nm, uint64_t(T), c.size()); oplog().add("seed", seed);
    uint64_t res[4][8] = {};
    const C& cc = c;
    team(T, seed, [&](int t) { Rng q(seed); for (int i = 0; i < 8; ++i) { res[t][i] = f(cc, q); perturb(); } });
    for (int t = 1; t < T; ++t) for (int i = 0; i < 8; ++i) VCHECK(res[t][i] == res[0][i], "const-read", "two concurrent readers get different results [%s]", nm);
    cnt("concurrent_reads") += uint64_t(T) * 8;
}
template<class C, bool PAR = false> void cread_hash(Rng& r, const char* nm) {
    C c; size_t n = r.pick<size_t>({ 0, 1, 7, 30, 200 }); for (size_t i = 0; i < n; ++i) { if constexpr (std::is_same_v<typename C::value_type, int64_t>) c.insert(int64_t(i * 3)); else c.emplace(int64_t(i * 3), Val(int64_t(i))); }
    for (size_t i = 0; i < n / 3; ++i) c.erase(int64_t(i * 3));
    const C o = c;
    const_team(c, r, nm, [&](const C& x, Rng& q) -> uint64_t {
        int64_t k = int64_t(q.below(3 * n + 3)); uint64_t h = 0;
        switch (q.below(9)) {
        case 0: { auto it = x.find(k); return it == x.end(); }
        case 1: return x.contains(k) * 2 + x.count(k);
        case 2: for (auto& e : x) { if constexpr (std::is_same_v<typename C::value_type, int64_t>) h += uint64_t(e); else h += uint64_t(e.second.get()); } return h;
        case 3: { C y(x); return y.size(); }
        case 4: return x == o;
        case 5: { auto p = x.equal_range(k); return p.first == p.second; }
        case 6: return x.size() + x.capacity() + x.bucket_count() + x.empty() + uint64_t(x.load_factor() * 1000);
        case 7: { auto hh = x.hash_function(); auto e = x.key_eq(); return e(k, k) + hh(k); }
        default: if constexpr (PAR) { bool b = false; x.if_contains(k, [&](const auto&) { b = true; }); x.for_each([&](const auto&) { ++h; }); return h + b; } else { x.prefetch(k); return x.hash(k); }
        }
    });
}
template<class C> void cread_btree(Rng& r, const char* nm) {
    C c; size_t n = r.pick<size_t>({ 0, 1, 30, 400, 2000 });
    for (size_t i = 0; i < n; ++i) { if constexpr (std::is_same_v<typename C::value_type, int64_t>) c.insert(int64_t((i * 7) % (n + 1))); else c.insert({ int64_t((i * 7) % (n + 1)), int64_t(i) }); }
    const C o = c;
    const_team(c, r, nm, [&](const C& x, Rng& q) -> uint64_t {
        int64_t k = int64_t(q.below(n + 3)); uint64_t h = 0;
        switch (q.below(9)) {
        case 0: return x.find(k) == x.end();
        case 1: return x.contains(k) * 2 + x.count(k);
        case 2: for (auto& e : x) { if constexpr (std::is_same_v<typename C::value_type, int64_t>) h = h * 31 + uint64_t(e); else h = h * 31 + uint64_t(e.second); } return h;
        case 3: { C y(x); return y.size(); }
        case 4: return (x == o) + (x < o) * 2;
        case 5: return uint64_t(std::distance(x.lower_bound(k), x.upper_bound(k)));
        case 6: return x.size() + x.empty();
        case 7: for (auto it = x.rbegin(); it != x.rend(); ++it) ++h; return h;
        default: { auto p = x.equal_range(k); return uint64_t(std::distance(p.first, p.second)); }
        }
    });
}
void cread_vector(Rng& r) {
    gtl::vector<std::string> v; size_t n = r.pick<size_t>({ 0, 1, 30, 200 }); for (size_t i = 0; i < n; ++i) v.push_back("element " + std::to_string(i * 7919));
    const auto o = v;
    const_team(v, r, "vector", [&](const gtl::vector<std::string>& x, Rng& q) -> uint64_t {
        uint64_t h = 0;
        switch (q.below(6)) {
        case 0: for (auto& e : x) h = h * 31 + e.size() + (unsigned char)e.back(); return h;
        case 1: { auto y = x; return y.size(); }
        case 2: return (x == o) + (x < o) * 2;
        case 3: if (n) { size_t i = q.below(n); return x[i].size() + x.at(i).size() + x.front().size() + x.back().size() + x.data()[i].size(); } return 0;
        case 4: for (auto it = x.rbegin(); it != x.rend(); ++it) h = h * 17 + it->size(); return h;
        default: return x.size() + x.capacity() + x.empty();
        }
    });
}
void cread_bits(Rng& r) {
    size_t n = r.pick<size_t>({ 0, 1, 63, 64, 65, 200, 1000 }); gtl::bit_vector v(n); for (size_t i = 0; i < n; ++i) if (r.chance(30)) v.set(i);
    const auto o = v;
    const_team(v, r, "bit_vector", [&](const gtl::bit_vector& x, Rng& q) -> uint64_t {
        size_t f = q.below(n + 1), l = f + q.below(n - f + 1);
        switch (q.below(7)) {
        case 0: return x.count() + x.any() + x.none() * 2 + x.every() * 4;
        case 1: return x.find_first();
        case 2: return x.find_next(f);
        case 3: return x == o;
        case 4: { auto y = x; return y.size(); }
        case 5: { auto s = x.view(f, l); return s.count() + s.find_first(); }
        default: return n ? x[q.below(n)] : 0;
        }
    });
}

// ------------------------------------------------------------------ P10: callbacks
struct SubMon { std::atomic<int> w{ 0 }, rd{ 0 }; };
template<class C, bool MAP, bool SHARED, bool MON> void cb_case(Rng& r, const char* nm) {
    g_hmode = int(r.below(kHashModes));
    g_perturb = unsigned(r.pick<int>({ 0, 20, 100, 300, 700 }));
    C c(r.below(60), PHash{}, PEq{});
    size_t K = r.range(1, 12); int T = int(r.range(2, 4)); size_t n = r.range(10, 60); size_t S = r.chance(30) ? 0 : r.below(30); // S stable keys
    std::vector<SubMon> mon(C::subcnt());
    auto put = [&](int64_t k, int64_t v) { if constexpr (MAP) c.try_emplace(k, v); else c.insert(k); };
    for (size_t i = 0; i < S; ++i) put(1000 + int64_t(i), 0);
    std::vector<std::atomic<int64_t>> added(K), removed(K), made(K), killed(K); std::atomic<uint64_t> calls{ 0 }, contended{ 0 };
    for (size_t i = 0; i < K; ++i) { added[i] = removed[i] = made[i] = killed[i] = 0; }
    unsigned mix = unsigned(r.below(4)); uint64_t seed = r.next();
    oplog().add(nm, uint64_t(T) * 100 + n, K * 10 + mix); oplog().add("seed", seed); oplog().add("perturb", g_perturb, uint64_t(g_hmode));
    auto writer = [&](size_t s, const char* what, auto f) {
        auto& m = mon[s]; int w = m.w.fetch_add(1), rr = m.rd.load();
        VCHECK(w == 0 && rr == 0, "overlap", "%s [%s]: a writing callback runs while %d writing and %d reading callbacks run on the same submap", what, nm, w, rr);
        if constexpr (MON) VCHECK(t_held >= (SHARED ? 1000 : 1), "lock-mode", "%s [%s]: a writing callback runs without the exclusive lock (%d)", what, nm, t_held);
        perturb(); f(); calls++;
        m.w.fetch_sub(1);
    };
    auto reader = [&](size_t s, const char* what, auto f) {
        auto& m = mon[s]; m.rd.fetch_add(1); int w = m.w.load(); if (m.rd.load() > 1) contended++;
        VCHECK(w == 0, "overlap", "%s [%s]: a reading callback runs while a writing one runs on the same submap", what, nm);
        if constexpr (MON) VCHECK(t_held >= 1, "lock-mode", "%s [%s]: a callback runs without the lock", what, nm);
        perturb(); f(); calls++;
        m.rd.fetch_sub(1);
    };
    auto sub_of = [&](int64_t k) { return C::subidx(c.hash(k)); };
    team(T, seed, [&](int t) {
        Rng q(seed + uint64_t(t) * 31 + 3);
        auto key = [&](const auto& e) -> int64_t { if constexpr (MAP) return e.first; else return e; };
        auto val = [&](const auto& e) -> int64_t { if constexpr (MAP) return e.second.get(); else return 1; };
        auto add = [&](auto& e, int64_t d) { if constexpr (MAP) { int64_t x = e.second.get(); perturb(); e.second.set(x + d); added[size_t(e.first)] += d; } };
        for (size_t i = 0; i < n; ++i) {
            int64_t k = int64_t(q.below(K)); size_t s = sub_of(k); int64_t d = 1 + int64_t(q.below(5)); int ca = 0, cb = 0; bool res;
            if (q.chance(25)) { int64_t k2 = 100000 + t * 1000 + int64_t(q.below(40)); if (q.chance(65)) put(k2, 3); else c.erase(k2); } // growth around
            unsigned op = unsigned(q.below(12)); if (mix == 1) op = unsigned(q.pick<int>({ 1, 2, 4, 4, 3 })); else if (mix == 2) op = unsigned(q.pick<int>({ 1, 0, 6, 5 })); else if (mix == 3) op = unsigned(q.pick<int>({ 3, 4, 4, 10, 2 }));
            auto made1 = [&] { made[size_t(k)]++; if constexpr (MAP) added[size_t(k)] += d; };
            switch (op) {
            case 0: res = c.if_contains(k, [&](const auto& e) { reader(s, "if_contains", [&] { ++ca; VCHECK(key(e) == k, "element", "if_contains(%lld) [%s] gets element %lld", (long long)k, nm, (long long)key(e)); (void)val(e); }); });
                VCHECK(ca == int(res), "exactly-once", "if_contains [%s] returned %d and called %d times", nm, res, ca); break;
            case 1: res = c.modify_if(k, [&](auto& e) { writer(s, "modify_if", [&] { ++ca; VCHECK(key(e) == k, "element", "modify_if: element %lld for key %lld", (long long)key(e), (long long)k); add(e, d); }); });
                VCHECK(ca == int(res), "exactly-once", "modify_if [%s] returned %d and called %d times", nm, res, ca); break;
            case 2: if constexpr (MAP) { res = c.try_emplace_l(k, [&](auto& e) { writer(s, "try_emplace_l", [&] { ++ca; VCHECK(key(e) == k, "element", "try_emplace_l: element %lld for key %lld", (long long)key(e), (long long)k); add(e, d); }); }, d);
                VCHECK(ca == int(!res), "exactly-once", "try_emplace_l [%s] returned %d and called %d times", nm, res, ca); if (res) made1(); } break;
            case 3: res = c.lazy_emplace_l(k, [&](auto& e) { writer(s, "lazy_emplace_l", [&] { ++ca; VCHECK(key(e) == k, "element", "lazy_emplace_l: element %lld for key %lld", (long long)key(e), (long long)k); add(e, d); }); },
                                               [&](const typename C::constructor& ct) { writer(s, "lazy_emplace_l constructor", [&] { ++cb; if constexpr (MAP) ct(k, Val(d)); else ct(k); }); });
                VCHECK(ca == int(!res) && cb == int(res), "exactly-once", "lazy_emplace_l [%s] returned %d, called exists %d and construct %d times", nm, res, ca, cb); if (res) made1(); break;
            case 4: { bool del = q.chance(60); int64_t seen = 0; res = c.erase_if(k, [&](auto& e) { writer(s, "erase_if", [&] { ++ca; VCHECK(key(e) == k, "element", "erase_if: element %lld for key %lld", (long long)key(e), (long long)k); seen = val(e); }); return del; });
                VCHECK(ca <= 1 && res == (ca && del), "exactly-once", "erase_if [%s] returned %d, called %d times, callback says %d", nm, res, ca, del);
                if (res) { killed[size_t(k)]++; if constexpr (MAP) removed[size_t(k)] += seen; } break; }
            case 5: { std::map<int64_t, int> seen; auto f = [&](const auto& e) { reader(sub_of(key(e)), "for_each", [&] { seen[key(e)]++; (void)val(e); }); }; if (q.chance(30)) std::as_const(c).for_each(std::execution::seq, f); else c.for_each(f);
                for (auto& x : seen) VCHECK(x.second == 1, "exactly-once", "for_each [%s] calls key %lld %d times", nm, (long long)x.first, x.second);
                for (size_t j = 0; j < S; ++j) VCHECK(seen.count(1000 + int64_t(j)), "exactly-once", "for_each [%s] misses a key which is always present", nm); break; }
            case 6: { std::map<int64_t, int> seen; auto f = [&](auto& e) { writer(sub_of(key(e)), "for_each_m", [&] { seen[key(e)]++; if (key(e) < int64_t(K)) add(e, d); }); }; if (q.chance(30)) c.for_each_m(std::execution::seq, f); else c.for_each_m(f);
                for (auto& x : seen) VCHECK(x.second == 1, "exactly-once", "for_each_m [%s] calls key %lld %d times", nm, (long long)x.first, x.second);
                for (size_t j = 0; j < S; ++j) VCHECK(seen.count(1000 + int64_t(j)), "exactly-once", "for_each_m [%s] misses a key which is always present", nm); break; }
            case 7: c.with_submap(s, [&](const auto& m) { reader(s, "with_submap", [&] { ++ca; auto it = m.find(k); if (it != m.end()) (void)val(*it); }); }); VCHECK(ca == 1, "exactly-once", "with_submap called %d times", ca); break;
            case 8: c.with_submap_m(s, [&](auto& m) { writer(s, "with_submap_m", [&] { ++ca; auto it = m.find(k); if (it == m.end()) return; if (q.chance(50)) { killed[size_t(k)]++; if constexpr (MAP) removed[size_t(k)] += val(*it); m.erase(it); } else if constexpr (MAP) add(*it, d); }); });
                VCHECK(ca == 1, "exactly-once", "with_submap_m called %d times", ca); break;
            case 9: { c.lazy_emplace(k, [&](const typename C::constructor& ct) { writer(s, "lazy_emplace", [&] { ++cb; if constexpr (MAP) ct(k, Val(d)); else ct(k); }); }); VCHECK(cb <= 1, "exactly-once", "lazy_emplace constructs %d times", cb); if (cb) made1(); break; }
            case 10: res = [&] { if constexpr (MAP) return c.try_emplace(k, d).second; else return c.insert(k).second; }(); if (res) made1(); break;
            default: { if (S || !q.chance(30)) break; C e(0, PHash{}, PEq{}); e.merge(c); // take everything
                for (auto& x : e) { int64_t kk = key(x); if (kk < int64_t(K)) { killed[size_t(kk)]++; if constexpr (MAP) removed[size_t(kk)] += val(x); } }
                break; }
            }
            VCHECK(t_held == 0, "lock-kept", "a lock is still held after operation %u [%s]", op, nm);
        }
    });
    g_perturb = 0;
    for (size_t k = 0; k < K; ++k) {
        bool p = false; int64_t v = 0; c.if_contains(int64_t(k), [&](const auto& e) { p = true; if constexpr (MAP) v = e.second.get(); });
        VCHECK(made[k] - killed[k] == int64_t(p), "conservation", "[%s] key %zu was constructed %lld times and erased %lld times but is %s", nm, k, (long long)made[k].load(), (long long)killed[k].load(), p ? "present" : "absent");
        if (MAP) VCHECK(added[k] == removed[k] + v, "lost-update", "[%s] key %zu: %lld was added, but %lld is there (%lld of it in erased elements)", nm, k, (long long)added[k].load(), (long long)(removed[k] + v), (long long)removed[k].load());
        cnt("constructions") += uint64_t(made[k].load()); cnt("erasures") += uint64_t(killed[k].load());
    }
    cnt("callbacks") += calls.load(); cnt("overlapping_readers") += contended.load(); cnt("concurrent_calls") += uint64_t(T) * n;
}

#if defined(VF_BOOST)
using XMutex = boost::shared_mutex;
#elif defined(VF_ABSL)
using XMutex = absl::Mutex;
#else
using XMutex = std::shared_mutex;
#endif
int main(int argc, char** argv) {
    hang_limit = 60;
    return run_main(argc, argv, {
        { "race", [](Rng& r, uint64_t i) { switch (i % 8) {
            case 0: race_case<PFM<0, std::mutex>, true>(r, "flat map 1 mutex"); break;
            case 1: race_case<PFM<0, XMutex>, true>(r, "flat map 1 shared"); break;
            case 2: race_case<PNM<1, XMutex>, true>(r, "node map 2 shared"); break;
            case 3: race_case<PFM<4, std::mutex>, true>(r, "flat map 16 mutex"); break;
            case 4: race_case<PFS<0, XMutex>, false>(r, "flat set 1 shared"); break;
            case 5: race_case<PNS<1, std::mutex>, false>(r, "node set 2 mutex"); break;
            case 6: race_case<PFM<2, XMutex>, true>(r, "flat map 4 shared"); break;
            default: race_case<PFM<1, MonMutex>, true>(r, "flat map 2 monitored mutex"); break; } } },
        { "cread", [](Rng& r, uint64_t i) { g_hmode = 0; g_perturb = unsigned(r.pick<int>({ 0, 50, 300 })); switch (i % 12) {
            case 0: cread_hash<gtl::flat_hash_map<int64_t, Val, PHash, PEq>>(r, "flat_hash_map"); break;
            case 1: cread_hash<gtl::node_hash_map<int64_t, Val, PHash, PEq>>(r, "node_hash_map"); break;
            case 2: cread_hash<gtl::flat_hash_set<int64_t>>(r, "flat_hash_set"); break;
            case 3: cread_hash<gtl::node_hash_set<int64_t, PHash, PEq>>(r, "node_hash_set"); break;
            case 4: cread_hash<PFM<2, gtl::NullMutex>, true>(r, "parallel_flat_hash_map without mutex"); break;
            case 5: cread_hash<PNM<2, XMutex>, true>(r, "parallel_node_hash_map"); break;
            case 6: cread_btree<gtl::btree_set<int64_t>>(r, "btree_set"); break;
            case 7: cread_btree<gtl::btree_multiset<int64_t>>(r, "btree_multiset"); break;
            case 8: cread_btree<gtl::btree_map<int64_t, int64_t>>(r, "btree_map"); break;
            case 9: cread_vector(r); break;
            case 10: cread_bits(r); break;
            default: cread_btree<gtl::btree_multimap<int64_t, int64_t>>(r, "btree_multimap"); break; } g_perturb = 0; } },
        { "cb", [](Rng& r, uint64_t i) { switch (i % 8) {
            case 0: cb_case<PFM<0, MonMutex>, true, false, true>(r, "flat map 1 mutex"); break;
            case 1: cb_case<PNM<0, MonMutex>, true, false, true>(r, "node map 1 mutex"); break;
            case 2: cb_case<PNM<1, XMutex>, true, true, false>(r, "node map 2 shared"); break;
            case 3: cb_case<PFM<4, MonMutex>, true, false, true>(r, "flat map 16 mutex"); break;
            case 4: cb_case<PFS<0, XMutex>, false, true, false>(r, "flat set 1 shared"); break;
            case 5: cb_case<PNS<1, MonMutex>, false, false, true>(r, "node set 2 mutex"); break;
            case 6: cb_case<PFM<2, XMutex>, true, true, false>(r, "flat map 4 shared"); break;
            default: cb_case<PFM<0, XMutex>, true, true, false>(r, "flat map 1 shared"); break; } } } });
}
