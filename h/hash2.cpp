// Cost and boundedness (P03), allocator propagation (P04/P23), fault injection (P05),
// for the hash containers.
#include "hash_world.hpp"
using namespace vf;
#ifndef CFG
#define CFG 0
#endif

// ------------------------------------------------------------------ P03: cost
template<class C>
void cost_case(Rng& r, const char* nm) {
    HState hs; hs.mode = r.chance(60) ? 0 : int(r.range(8, 9)); // runs of equal hashes: more comparisons, but no more rehashing
    const bool good = hs.mode == 0;
    C c(r.chance(30) ? r.below(3000) : 0, typename C::hasher{ hs }, typename C::key_equal{ hs });
    size_t n = r.chance(30) || !good ? r.range(100, 2000) : r.range(2000, 30000);
    bool   reserved = r.chance(30);
    if (reserved) c.reserve(n);
    else if (r.chance(30)) c.reserve(n * r.range(2, 4)); // sparse: churn squashes erased slots in place
    auto put = [&](int64_t k) { if constexpr (requires { typename C::mapped_type; }) c.emplace(typename C::key_type(k), typename C::mapped_type(int(k))); else c.emplace(typename C::key_type(k)); };
    // inserting n new keys
    uint64_t h0 = g_hash_calls, e0 = g_eq_calls;
    size_t   cap_before = c.capacity();
    oplog().add("insert", n, reserved);
    for (size_t i = 0; i < n; ++i) put(int64_t(i));
    uint64_t hcalls = g_hash_calls - h0;
    VCHECK(hcalls <= 4 * n + 200, "cost-hash", "%s: %llu hash computations for %zu insertions", nm, (unsigned long long)hcalls, n);
    if (reserved) VCHECK(hcalls <= 2 * n && c.capacity() >= n && (cap_before == 0 || true), "cost-hash", "%s: %llu hash computations for %zu insertions after reserve", nm, (unsigned long long)hcalls, n);
    cnt("hash_calls") += hcalls; cnt("insertions") += n;
    auto lookups = [&](const char* when) {
        size_t q = 4000;
        uint64_t e1 = g_eq_calls;
        size_t hit = 0;
        for (size_t i = 0; i < q; ++i) { int64_t k = int64_t(r.below(n)); hit += c.find(typename C::key_type(k)) != c.end(); }
        double per_hit = double(g_eq_calls - e1) / double(q);
        (void)hit;
        e1 = g_eq_calls;
        for (size_t i = 0; i < q; ++i) { int64_t k = int64_t(n + 1000000 + r.below(1u << 30)); VCHECK(c.find(typename C::key_type(k)) == c.end(), "lookup", "absent key found"); }
        double per_miss = double(g_eq_calls - e1) / double(q);
        stat_max("max_eq_per_hit_x1000", uint64_t(per_hit * 1000)); stat_max("max_eq_per_miss_x1000", uint64_t(per_miss * 1000));
        VCHECK(!good || per_hit <= 1.5, "cost-eq", "%s %s: %.2f comparisons per successful lookup (size %zu, capacity %zu)", nm, when, per_hit, c.size(), c.capacity());
        VCHECK(!good || per_miss <= 0.6, "cost-eq", "%s %s: %.2f comparisons per unsuccessful lookup (size %zu, capacity %zu)", nm, when, per_miss, c.size(), c.capacity());
        cnt("cost_lookups") += 2 * q;
    };
    lookups("after growth");
    (void)e0;
    // churn at a constant size: capacity must not grow without limit, cost stays amortized constant
    size_t live = c.size();
    size_t rounds = r.range(1, 6) * n + (good ? 0 : 20000);
    int64_t next = int64_t(n);
    std::vector<int64_t> ks(n); for (size_t i = 0; i < n; ++i) ks[i] = int64_t(i);
    h0 = g_hash_calls;
    size_t cap0 = c.capacity();
    oplog().add("churn", rounds, r.s & 0xffff);
    unsigned style = unsigned(r.below(3)); // fifo, random, lifo
    for (size_t i = 0; i < rounds; ++i) {
        size_t p = style == 0 ? i % n : style == 1 ? r.below(n) : n - 1 - (i % std::min<size_t>(n, 50));
        VCHECK(c.erase(typename C::key_type(ks[p])) == 1, "result", "churn: erase lost key %lld", (long long)ks[p]);
        ks[p] = next++;
        put(ks[p]);
        size_t bound = std::max<size_t>(cap0, live * 32 / 7 + 16);
        if (c.capacity() > bound) violation("capacity", "%s: capacity %zu after %zu replacements at size %zu (bound %zu)", nm, c.capacity(), i, live, bound);
    }
    hcalls = g_hash_calls - h0;
    VCHECK(hcalls <= 6 * rounds + 4 * n + 200, "cost-hash", "%s: %llu hash computations for %zu replacements at size %zu", nm, (unsigned long long)hcalls, rounds, live);
    VCHECK(c.size() == live, "size", "churn changed the size");
    cnt("churn_steps") += rounds;
    n = 0; // lookups of keys in ks
    {
        uint64_t e1 = g_eq_calls; size_t q = 3000;
        for (size_t i = 0; i < q; ++i) VCHECK(c.find(typename C::key_type(ks[r.below(ks.size())])) != c.end(), "lookup", "churn lost a key");
        VCHECK(!good || double(g_eq_calls - e1) / double(q) <= 1.5, "cost-eq", "%s after churn: %.2f comparisons per successful lookup", nm, double(g_eq_calls - e1) / double(q));
        e1 = g_eq_calls;
        for (size_t i = 0; i < q; ++i) VCHECK(c.find(typename C::key_type(next + int64_t(r.below(1u << 30)))) == c.end(), "lookup", "absent key found");
        VCHECK(!good || double(g_eq_calls - e1) / double(q) <= 0.6, "cost-eq", "%s after churn: %.2f comparisons per unsuccessful lookup", nm, double(g_eq_calls - e1) / double(q));
    }
    // shrink
    size_t keep = r.below(ks.size() + 1);
    if (r.chance(30)) keep = std::min<size_t>(ks.size(), r.pick<size_t>({ 0, 1, 2, 3, 4, 6, 7, 8, 13, 14, 15, 16, 27, 28, 29, 31, 32, 55, 56, 57, 63, 64 }));
    oplog().add("shrink", keep);
    for (size_t i = keep; i < ks.size(); ++i) c.erase(typename C::key_type(ks[i]));
    c.rehash(r.chance(70) ? 0 : r.below(keep + 2));
    VCHECK(c.size() == keep, "size", "after erase: size %zu expected %zu", c.size(), keep);
    VCHECK(c.size() <= c.capacity() - c.capacity() / 8 || c.capacity() < 8, "load", "%s: rehash leaves %zu elements in capacity %zu", nm, c.size(), c.capacity());
    for (size_t i = 0; i < keep; ++i) VCHECK(c.find(typename C::key_type(ks[i])) != c.end(), "lookup", "lost after rehash");
    for (size_t i = 0; i < 50; ++i) VCHECK(c.find(typename C::key_type(next + int64_t(i))) == c.end(), "lookup", "absent key found after rehash"); // must end
    for (size_t i = 0; i < 40; ++i) put(next + 100 + int64_t(i));
    VCHECK(c.size() == keep + 40, "size", "after rehash and insert: %zu", c.size());
    c.rehash(0);
    VCHECK(c.capacity() <= std::max<size_t>(c.size() * 32 / 7, 16), "capacity", "%s: rehash(0) leaves capacity %zu for %zu elements", nm, c.capacity(), c.size());
    c.clear(); c.rehash(0);
    VCHECK(c.capacity() == 0, "capacity", "%s: clear and rehash(0) leave capacity %zu", nm, c.capacity());
    VCHECK(c.find(typename C::key_type(1)) == c.end(), "lookup", "found in an empty table");
}

// exact sizes around the load limits: fill to n, shrink, probe for absent keys, refill
template<class C>
void limit_case(Rng& r, uint64_t idx, const char* nm) {
    HState hs; hs.mode = int(r.below(kHashModes));
    size_t n = size_t(idx % 140);
    C c(0, typename C::hasher{ hs }, typename C::key_equal{ hs });
    auto put = [&](int64_t k) { if constexpr (requires { typename C::mapped_type; }) c.emplace(typename C::key_type(k), typename C::mapped_type(int(k))); else c.emplace(typename C::key_type(k)); };
    oplog().add("limit", n, uint64_t(hs.mode));
    unsigned how = unsigned(r.below(4));
    if (how == 0) c.reserve(n);
    for (size_t i = 0; i < n; ++i) put(int64_t(i));
    auto check = [&](size_t cnt, const char* w) {
        oplog().add(w, cnt);
        VCHECK(c.size() == cnt, "size", "%s %s: size %zu, expected %zu", nm, w, c.size(), cnt);
        VCHECK(c.size() <= c.capacity() && (c.capacity() < 8 || c.size() <= c.capacity() - c.capacity() / 8), "load", "%s %s: %zu elements in capacity %zu", nm, w, c.size(), c.capacity());
        for (int64_t k = 1000000; k < 1000020; ++k) VCHECK(!c.contains(typename C::key_type(k)), "lookup", "absent key found");
        for (size_t i = 0; i < cnt; ++i) VCHECK(c.contains(typename C::key_type(int64_t(i))), "lookup", "%s %s: key %zu lost", nm, w, i);
    };
    check(n, "filled");
    if (how == 1) { size_t t = r.below(n + 3); c.rehash(t); check(n, "rehash(t)"); }
    c.rehash(0); check(n, "rehash(0)");
    if (how == 2) { C d(c); VCHECK(d.size() == n, "size", "copy"); for (int64_t k = 1000000; k < 1000020; ++k) VCHECK(!d.contains(typename C::key_type(k)), "lookup", "absent key found in copy"); }
    put(int64_t(n)); check(n + 1, "insert after rehash(0)");
    c.erase(typename C::key_type(int64_t(n))); check(n, "erase");
    // replace every element over and over without growth in size
    for (size_t rep = 0; rep < 3; ++rep)
        for (size_t i = 0; i < n; ++i) { c.erase(typename C::key_type(int64_t(i))); put(int64_t(2000000 + i)); VCHECK(!c.contains(typename C::key_type(3000000)), "lookup", "absent key found"); c.erase(typename C::key_type(int64_t(2000000 + i))); put(int64_t(i)); }
    check(n, "replaced");
    c.rehash(0); check(n, "rehash(0) again");
    size_t t = r.below(200); c.reserve(t); check(n, "reserve");
    size_t cap = c.capacity();
    for (size_t i = n; i < t; ++i) { put(int64_t(i)); VCHECK(c.capacity() == cap, "capacity", "%s: reserve(%zu) did not hold at %zu", nm, t, i); }
    cnt("limit_checks")++;
}

// ------------------------------------------------------------------ P04 / P23: allocator propagation
template<template<class> class MK, bool CP, bool MV_, bool SW>
struct AllocCase;
template<bool CP, bool MV_, bool SW> struct PA {
    template<class T> using A = TAlloc<T, CP, MV_, SW>;
    using FM = gtl::flat_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, A<std::pair<const Obj, Obj>>>;
    using NM = gtl::node_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, A<std::pair<const Obj, Obj>>>;
    using PM = gtl::parallel_flat_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, A<std::pair<const Obj, Obj>>, 2, std::mutex>;
};
template<class C, bool CP, bool MV_, bool SW>
void alloc_case_t(Rng& r, const char* nm) {
    using A = typename C::allocator_type;
    {
        constexpr int N = 3;
        std::unique_ptr<C> c[N]; std::map<int64_t, int64_t> m[N]; int id[N]; HState hs[N];
        int64_t nv = 1;
        for (int i = 0; i < N; ++i) { id[i] = int(r.below(2)) + 1; hs[i].mode = int(r.below(kHashModes)); c[i] = std::make_unique<C>(r.below(10), Hsh<Obj>{ hs[i] }, Eql<Obj>{ hs[i] }, A(id[i])); }
        auto check = [&](int i, const char* w) {
            VCHECK(c[i]->get_allocator().id == id[i], "alloc-propagation", "%s [%s]: the container has allocator %d, expected %d", w, nm, c[i]->get_allocator().id, id[i]);
            VCHECK(c[i]->hash_function().s.mode == hs[i].mode && c[i]->key_eq().s.mode == hs[i].mode, "functor", "%s [%s]: wrong hash functor", w, nm);
            VCHECK(c[i]->size() == m[i].size(), "size", "%s [%s]: size %zu expected %zu", w, nm, c[i]->size(), m[i].size());
            size_t n = 0;
            for (auto& e : *c[i]) { ++n; auto f = m[i].find(e.first.get()); VCHECK(f != m[i].end() && f->second == e.second.get(), "content", "%s [%s]", w, nm); }
            VCHECK(n == m[i].size(), "iteration", "%s [%s]", w, nm);
            for (auto& e : m[i]) VCHECK(c[i]->contains(Obj(e.first)), "lookup", "%s [%s] key lost", w, nm);
            cnt("alloc_checks")++;
        };
        size_t ops = r.range(10, 60);
        for (size_t o = 0; o < ops; ++o) {
            int i = int(r.below(N)), j = (i + 1 + int(r.below(N - 1))) % N;
            switch (r.below(12)) {
            default: { int64_t k = int64_t(r.below(60)); oplog().add("put", uint64_t(i), uint64_t(k)); (*c[i])[Obj(k)] = Obj(nv); m[i][k] = nv++; break; }
            case 4: { int64_t k = int64_t(r.below(60)); oplog().add("erase", uint64_t(i), uint64_t(k)); c[i]->erase(Obj(k)); m[i].erase(k); break; }
            case 5: oplog().add("copy=", uint64_t(i), uint64_t(j)); *c[i] = *c[j]; m[i] = m[j]; hs[i] = hs[j]; if (CP) id[i] = id[j]; check(i, "copy assignment"); check(j, "copy assignment source"); break;
            case 6: { oplog().add("move=", uint64_t(i), uint64_t(j)); *c[i] = std::move(*c[j]); m[i] = m[j]; hs[i] = hs[j]; if (MV_) id[i] = id[j]; check(i, "move assignment");
                      c[j]->clear(); m[j].clear(); check(j, "move assignment source"); break; }
            case 7: if (SW || id[i] == id[j]) { oplog().add("swap", uint64_t(i), uint64_t(j)); c[i]->swap(*c[j]); std::swap(m[i], m[j]); std::swap(hs[i], hs[j]); if (SW) std::swap(id[i], id[j]); check(i, "swap"); check(j, "swap"); } break;
            case 8: { oplog().add("copy-ctor", uint64_t(i), uint64_t(j)); auto n = std::make_unique<C>(*c[j]); c[i] = std::move(n); m[i] = m[j]; hs[i] = hs[j]; id[i] = id[j]; check(i, "copy construction"); break; }
            case 9: { oplog().add("move-ctor", uint64_t(i), uint64_t(j)); auto n = std::make_unique<C>(std::move(*c[j])); c[i] = std::move(n); m[i] = m[j]; hs[i] = hs[j]; id[i] = id[j]; check(i, "move construction"); c[j]->clear(); m[j].clear(); check(j, "move construction source"); break; }
            case 10: { int a = int(r.below(3)) + 1; oplog().add("copy-ctor(alloc)", uint64_t(i), uint64_t(j)); auto n = std::make_unique<C>(*c[j], A(a)); c[i] = std::move(n); m[i] = m[j]; hs[i] = hs[j]; id[i] = a; check(i, "copy construction with allocator"); break; }
            case 11: { int a = int(r.below(3)) + 1; oplog().add("move-ctor(alloc)", uint64_t(i), uint64_t(j)); auto n = std::make_unique<C>(std::move(*c[j]), A(a)); c[i] = std::move(n); m[i] = m[j]; hs[i] = hs[j]; id[i] = a; check(i, "move construction with allocator"); c[j]->clear(); m[j].clear(); check(j, "source"); break; }
            }
        }
        for (int i = 0; i < N; ++i) check(i, "end");
    }
    check_no_leaks(nm);
}
template<class P, bool CP, bool MV_, bool SW> void alloc_kind(Rng& r, unsigned k) {
    if (k == 0) alloc_case_t<typename P::FM, CP, MV_, SW>(r, "flat_hash_map");
    else if (k == 1) alloc_case_t<typename P::NM, CP, MV_, SW>(r, "node_hash_map");
    else alloc_case_t<typename P::PM, CP, MV_, SW>(r, "parallel_flat_hash_map");
}
void alloc_case(Rng& r, uint64_t idx) {
    unsigned t = unsigned(idx % 8), k = unsigned(idx / 8 % 3);
#define AC(a, b, c) alloc_kind<PA<a, b, c>, a, b, c>(r, k)
    switch (t) { case 0: AC(false, false, false); break; case 1: AC(true, false, false); break; case 2: AC(false, true, false); break; case 3: AC(true, true, false); break;
                 case 4: AC(false, false, true); break; case 5: AC(true, false, true); break; case 6: AC(false, true, true); break; default: AC(true, true, true); break; }
}

// ------------------------------------------------------------------ P05: faults
template<class S>
struct FaultWorld {
    using C = typename S::Cont; using Key = typename C::key_type; using VT = typename C::value_type; using Map = typename mapped_of<C>::type;
    struct Op { bool ins; int64_t k, v; };
    HState hs; std::vector<Op> hist; size_t buckets = 0;
    static VT mk(int64_t k, int64_t v) { if constexpr (S::is_map) return VT(make_of<Key>(k), make_of<Map>(v)); else { (void)v; return make_of<Key>(k); } }
    std::unique_ptr<C> build(std::map<int64_t, int64_t>* m) {
        auto c = std::make_unique<C>(S::make(buckets, hs));
        for (auto& o : hist) { if (o.ins) { c->insert(mk(o.k, o.v)); if (m) m->emplace(o.k, S::is_map ? o.v : 0); } else { c->erase(make_of<Key>(o.k)); if (m) m->erase(o.k); } }
        return c;
    }
    static void compare(const C& c, const std::map<int64_t, int64_t>& m, const char* w, const char* fk, long at) {
        VCHECK(c.size() == m.size(), "fault-size", "%s [%s], %s fault %ld: size() is %zu, expected %zu", w, S::name, fk, at, c.size(), m.size());
        size_t n = 0;
        for (auto& e : c) {
            ++n; int64_t k, v = 0;
            if constexpr (S::is_map) { k = id_of(e.first); v = id_of(e.second); } else k = id_of(e);
            auto f = m.find(k);
            VCHECK(f != m.end() && (!S::is_map || f->second == v), "fault-content", "%s [%s], %s fault %ld: key %lld value %lld is not what was there", w, S::name, fk, at, (long long)k, (long long)v);
        }
        VCHECK(n == m.size(), "fault-content", "%s [%s], %s fault %ld: %zu elements, expected %zu", w, S::name, fk, at, n, m.size());
        for (auto& kv : m) VCHECK(c.contains(make_of<Key>(kv.first)), "fault-content", "%s [%s], %s fault %ld: key %lld lost", w, S::name, fk, at, (long long)kv.first);
        for (int64_t k = 5000; k < 5010; ++k) VCHECK(!c.contains(make_of<Key>(k)), "fault-content", "%s: absent key found", w);
    }
    static void use(C& c, std::map<int64_t, int64_t> m, Rng& r) {
        for (int i = 0; i < 25; ++i) {
            int64_t k = int64_t(r.below(80)), v = 100000 + i;
            if (r.chance(60)) { bool n = m.emplace(k, S::is_map ? v : 0).second; VCHECK(c.insert(mk(k, v)).second == n, "fault-usable", "insert after a fault [%s]", S::name); }
            else VCHECK(c.erase(make_of<Key>(k)) == m.erase(k), "fault-usable", "erase after a fault [%s]", S::name);
        }
        for (int64_t k = 200; k < 200 + int64_t(r.below(60)); ++k) { c.insert(mk(k, k)); m.emplace(k, S::is_map ? k : 0); }
        compare(c, m, "use after fault", "-", 0);
        c.clear(); VCHECK(c.size() == 0 && c.begin() == c.end(), "fault-usable", "clear after a fault");
    }
    void run(Rng& r) {
        if constexpr (S::stateful) hs.mode = int(r.below(4)); 
        buckets = r.chance(20) ? r.below(30) : 0;
        size_t n = r.below(70); size_t U = r.range(5, 60);
        for (size_t i = 0; i < n; ++i) hist.push_back({ r.chance(70), int64_t(r.below(U)), int64_t(1000 + i) });
        unsigned op = unsigned(r.below(S::is_map ? 16 : 10));
        oplog().add("state", r.s, buckets);
        int64_t k = r.chance(60) ? int64_t(U + r.below(20)) : int64_t(r.below(U)), v = 777;
        static const char* KN[] = { "ctor", "hash", "eq", "alloc", "assign", "callback" };
        for (FaultKind fk : { F_CTOR, F_HASH, F_EQ, F_ALLOC, F_ASSIGN, F_CALL }) {
            for (long at = 1; at < 400; ++at) {
                if (fk == F_HASH && at > 1) break; // a hash that throws while rehashing is outside the guarantee
                std::map<int64_t, int64_t> m; auto c = build(&m);
                std::map<int64_t, int64_t> before = m;
                std::unique_ptr<C> other; std::map<int64_t, int64_t> om;
                bool fired = false; const char* w = ""; bool strong = true;
                // arguments are made before the fault is armed
                Key key = make_of<Key>(k); Map val = make_of<Map>(v); VT vt = mk(k, v);
                std::vector<std::pair<int64_t, int64_t>> rng; for (int q = 0; q < 6; ++q) rng.push_back({ int64_t(100 + (k + q * 7) % 9), 2000 + q });
                std::vector<VT> src; src.reserve(8); for (auto& x : rng) src.push_back(mk(x.first, x.second));
                bool was = m.count(k) != 0;
                auto ins = [&] { m.emplace(k, S::is_map ? v : 0); };
                if (op == 6 || op == 7) { FaultWorld o2; o2.hs = hs; for (int q = 0; q < 20; ++q) o2.hist.push_back({ true, int64_t(q * 3), int64_t(3000 + q) }); other = o2.build(&om); }
                auto other_before = om;
                try {
                    arm(fk, at);
                    switch (op) {
                    case 0: w = "insert(const&)"; c->insert(vt); ins(); break;
                    case 1: w = "insert(&&)"; c->insert(std::move(vt)); ins(); break;
                    case 2: w = "emplace(nondecomposable)"; if constexpr (std::is_same_v<Key, Obj>) { if constexpr (S::is_map) c->emplace(k, v); else c->emplace(k); } else c->emplace(vt); ins(); break;
                    case 3: w = "insert(range)"; strong = false; if (fk == F_HASH) goto next_kind; c->insert(src.begin(), src.end()); for (auto& x : rng) m.emplace(x.first, S::is_map ? x.second : 0); break;
                    case 4: w = "copy construction"; { C d(*c); disarm(); compare(d, m, "copy", KN[fk], at); } break;
                    case 5: w = "lazy_emplace"; c->lazy_emplace(key, [&](const typename C::constructor& ctor) { fault_point(F_CALL); if constexpr (S::is_map) ctor(key, val); else ctor(key); fault_point(F_CALL); }); ins(); break;
                    case 6: w = "copy assignment"; strong = !S::is_par; *c = *other; m = om; break;
                    case 7: w = "merge"; if (fk == F_HASH) { goto next_kind; } strong = false; c->merge(*other); break;
                    case 8: w = "erase(key)"; c->erase(key); m.erase(k); break;
                    case 9: w = "reserve"; if (fk == F_HASH) goto next_kind; c->reserve(m.size() * 2 + 20); break;
                    case 10: w = "try_emplace"; if constexpr (S::is_map) { c->try_emplace(key, val); ins(); } break;
                    case 11: w = "operator[]"; if constexpr (S::is_map) { (*c)[key]; if (!was) m[k] = 0; if constexpr (std::is_same_v<Map, std::string>) if (!was) { disarm(); (*c)[key] = make_of<Map>(0); } } break;
                    case 12: w = "insert_or_assign"; if constexpr (S::is_map) { c->insert_or_assign(key, val); m[k] = v; } break;
                    case 13: w = "emplace(piecewise)"; if constexpr (S::is_map) { c->emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(val)); ins(); } break;
                    case 14: w = "emplace(key,value)"; if constexpr (S::is_map) { c->emplace(key, val); ins(); } break;
                    case 15: w = "lazy callback"; 
                        if constexpr (S::is_par && S::is_map) { 
                            c->lazy_emplace_l(key, [&](VT& x) { fault_point(F_CALL); x.second = val; }, [&](const typename C::constructor& ctor) { fault_point(F_CALL); ctor(key, val); fault_point(F_CALL); });
                            m[k] = v;
                            if (fk != F_HASH) { before = m; c->modify_if(key, [&](VT& x) { fault_point(F_CALL); x.second = val; }); c->if_contains(key, [&](const VT&) { fault_point(F_CALL); });
                                c->try_emplace_l(key, [&](VT&) { fault_point(F_CALL); }, val); c->erase_if(key, [&](VT&) { fault_point(F_CALL); return false; });
                                c->for_each([&](const VT&) { fault_point(F_CALL); }); c->for_each_m([&](VT&) { fault_point(F_CALL); }); }
                        } else if constexpr (S::is_map) { c->insert_or_assign(std::move(key), std::move(val)); m[k] = v; } break;
                    }
                    disarm();
                } catch (const Fault&) { fired = true; disarm(); }
                oplog().add(w, uint64_t(fk), uint64_t(at));
                if (!fired) { 
                    if (op == 7) { om.clear(); for (auto& x : other_before) if (!m.emplace(x).second) om.insert(x); compare(*other, om, "merge source", "no", 0); }
                    compare(*c, m, w, "no", 0); break; }
                cnt("faults_injected")++;
                cnt((std::string("fault_") + KN[fk]).c_str())++;
                if (strong) compare(*c, before, w, KN[fk], at);
                else if (op == 3) { // a prefix of the range
                    std::map<int64_t, int64_t> t = before; bool okk = false;
                    for (size_t q = 0; q <= rng.size() && !okk; ++q) { if (q) t.emplace(rng[q - 1].first, S::is_map ? rng[q - 1].second : 0); if (t.size() == c->size()) okk = true; }
                    VCHECK(okk, "fault-size", "insert(range) [%s], %s fault %ld: size %zu matches no prefix", S::name, KN[fk], at, c->size());
                    compare(*c, t, w, KN[fk], at); before = t;
                } else if (op == 6) { // parallel: submap by submap; every element is an old or a new one
                    std::map<int64_t, int64_t> cm;
                    for (auto& e : *c) { int64_t kk, vv = 0; if constexpr (S::is_map) { kk = id_of(e.first); vv = id_of(e.second); } else kk = id_of(e);
                        auto b = before.find(kk); auto o = other_before.find(kk);
                        VCHECK((b != before.end() && b->second == vv) || (o != other_before.end() && o->second == vv), "fault-content", "copy assignment [%s], %s fault %ld: foreign element %lld", S::name, KN[fk], at, (long long)kk);
                        VCHECK(cm.emplace(kk, vv).second, "fault-content", "copy assignment [%s]: key %lld twice", S::name, (long long)kk); }
                    before = cm;
                    compare(*c, cm, w, KN[fk], at);
                } else { // merge: conservation
                    std::map<int64_t, int64_t> all; size_t tot = c->size() + other->size();
                    std::map<int64_t, int64_t> cm;
                    auto put = [&](const C& x, bool first) { for (auto& e : x) { int64_t kk, vv = 0; if constexpr (S::is_map) { kk = id_of(e.first); vv = id_of(e.second); } else kk = id_of(e);
                        if (first) cm[kk] = vv; auto b = before.find(kk); auto o = other_before.find(kk);
                        bool fine = first ? ((b != before.end() && b->second == vv) || (b == before.end() && o != other_before.end() && o->second == vv)) : (o != other_before.end() && o->second == vv);
                        VCHECK(fine, "fault-content", "merge [%s], %s fault %ld: foreign element %lld", S::name, KN[fk], at, (long long)kk); } };
                    put(*c, true); put(*other, false);
                    VCHECK(tot == before.size() + other_before.size(), "fault-size", "merge [%s], %s fault %ld: %zu elements in total, expected %zu", S::name, KN[fk], at, tot, before.size() + other_before.size());
                    before = cm;
                    compare(*c, cm, "merge", KN[fk], at);
                    use(*other, [&] { std::map<int64_t, int64_t> x; for (auto& e : *other) { if constexpr (S::is_map) x[id_of(e.first)] = id_of(e.second); else x[id_of(e)] = 0; } return x; }(), r);
                }
                if (op == 6) compare(*other, other_before, "copy assignment source", KN[fk], at);
                use(*c, before, r);
            }
            next_kind:;
            disarm();
        }
    }
};
template<class S> void fault_case(Rng& r) {
    { FaultWorld<S> w; w.run(r); }
    check_no_leaks(S::name);
}

using CostSet = gtl::flat_hash_set<int64_t, Hsh<int64_t>, Eql<int64_t>>;
using CostMap = gtl::flat_hash_map<int64_t, int, Hsh<int64_t>, Eql<int64_t>>;
using CostNode = gtl::node_hash_set<int64_t, Hsh<int64_t>, Eql<int64_t>>;
int main(int argc, char** argv) {
    return run_main(argc, argv, {
#if CFG == 0
        { "cost", [](Rng& r, uint64_t i) { if (i % 3 == 0) cost_case<CostSet>(r, "flat_hash_set"); else if (i % 3 == 1) cost_case<CostMap>(r, "flat_hash_map"); else cost_case<CostNode>(r, "node_hash_set"); } },
        { "limit", [](Rng& r, uint64_t i) { if (r.chance(50)) limit_case<CostSet>(r, i, "flat_hash_set"); else limit_case<CostMap>(r, i, "flat_hash_map"); } },
#elif CFG == 1
        { "alloc", alloc_case },
#elif CFG == 2
        { "fault", [](Rng& r, uint64_t i) { if (i % 3 == 0) fault_case<FMapObjObjA>(r); else if (i % 3 == 1) fault_case<NMapObjObjA>(r); else fault_case<FSetObjA>(r); } },
#elif CFG == 3
        { "fault", [](Rng& r, uint64_t i) { if (i % 3 == 0) fault_case<PFMapObjObjA>(r); else if (i % 3 == 1) fault_case<PNMapObjObj>(r); else fault_case<NSetStrA>(r); } },
#elif CFG == 4
        { "fault", [](Rng& r, uint64_t i) { if (i % 3 == 0) fault_case<FMapObjObj>(r); else if (i % 3 == 1) fault_case<NSetObj>(r); else fault_case<PFSetObj0>(r); } },
#endif
    });
}
