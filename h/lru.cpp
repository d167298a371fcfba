// P18, P19: LRU caches and memoization.
#include "mt.hpp"
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <list>
#include <optional>
#include <set>
using namespace vf;

// ------------------------------------------------------------------ values which know their key
struct LVal { Obj o; int64_t key = -1; LVal() : o(-1) {} LVal(int64_t k, int64_t v) : o(v), key(k) {} };
struct MHash { size_t operator()(int64_t k) const { return weak_hash(g_hmode, uint64_t(k)); } size_t operator()(const std::string& s) const { return weak_hash(g_hmode, std::hash<std::string>()(s)); } };
template<class K> K mkkey(int64_t k) { if constexpr (std::is_same_v<K, std::string>) return "key-with-a-long-name-" + std::to_string(k); else return K(k); }

// exact model of a cache with one shard; the sharded one is judged by the bounds every shard keeps
template<class K, size_t N, class Mx>
void lru_case(Rng& r, const char* nm) {
    using C = gtl::lru_cache_impl<K, LVal, N, MHash, std::equal_to<K>, Mx>;
    g_hmode = r.chance(70) ? 0 : int(r.below(4));
    {
        size_t shards = C::num_submaps, per = r.pick<size_t>({ 3, 4, 5, 8, 20 }), max = per * shards + (shards > 1 ? r.below(shards) : 0);
        VCHECK(shards == size_t(1) << N, "shards", "[%s] %zu shards", nm, shards);
        auto c = std::make_unique<C>(max); std::list<std::pair<int64_t, int64_t>> m; // most recent first
        std::unordered_map<int64_t, int64_t> latest; int64_t next = 1; size_t univ = r.pick<size_t>({ per, per + 1, 2 * per + 1, 6 * per * shards }), n = r.pick<size_t>({ 60, 300 });
        auto pos = [&](int64_t k) { size_t i = 0; for (auto it = m.begin(); it != m.end(); ++it, ++i) if (it->first == k) return std::make_pair(it, i); return std::make_pair(m.end(), ~size_t(0)); };
        auto touch = [&](int64_t k, int64_t v) { auto p = pos(k); if (p.first != m.end()) m.erase(p.first); m.emplace_front(k, v); };
        // a copy made earlier, and what it has to hold whatever happens to the other one
        std::unique_ptr<C> ghost; std::vector<char> gin; std::unordered_map<int64_t, int64_t> glatest; std::list<std::pair<int64_t, int64_t>> gm; size_t gmax = 0;
        auto judge_ghost = [&]() { if (!ghost) return; size_t there = 0; cnt("copies_judged")++;
            for (int64_t q = 0; q < int64_t(univ); ++q) { bool e = ghost->exists(mkkey<K>(q)); VCHECK(e == bool(gin[size_t(q)]), "copy", "[%s] key %lld is %s a copy after the other cache was used", nm, (long long)q, e ? "in" : "not in"); there += e; }
            VCHECK(ghost->size() == there, "copy", "[%s] a copy has size %zu, but %zu keys are found", nm, ghost->size(), there);
            if (N == 0 && r.chance(50)) { for (int64_t x = 1000000; !gm.empty(); ++x) { ghost->insert(mkkey<K>(x), LVal(x, x)); if (++there > gmax) { int64_t q = gm.back().first; gm.pop_back(); --there; VCHECK(!ghost->exists(mkkey<K>(q)), "copy", "[%s] a copy evicts in another order than its source", nm); for (auto& y : gm) VCHECK(ghost->exists(mkkey<K>(y.first)), "copy", "[%s] a copy evicts a key used more recently", nm); } } }
            else for (int64_t q = 0; q < int64_t(univ); ++q) { auto g = ghost->get(mkkey<K>(q)); VCHECK(g.has_value() == bool(gin[size_t(q)]) && (!g || (g->key == q && g->o.get() == glatest[q])), "copy", "[%s] key %lld has another value in a copy after the other cache was used", nm, (long long)q); }
            ghost.reset(); };
        for (size_t i = 0; i < n; ++i) {
            int64_t k = int64_t(r.below(univ)); unsigned o = unsigned(r.below(103)); auto p = pos(k); bool in = p.first != m.end(); size_t rank = p.second; K kk = mkkey<K>(k);
            // exact for one shard; otherwise: certainly present while fewer than `per` other keys were used since
            bool must = N == 0 ? in : in && rank < per, may = N == 0 ? in : in;
            if (o < 45) { int64_t v = next++; oplog().add("insert", uint64_t(k), 1); LVal lv(k, v); if (r.chance(50)) c->insert(kk, lv); else c->insert(kk, std::move(lv)); latest[k] = v; touch(k, v); if (N == 0 && m.size() > max) { m.pop_back(); cnt("evictions")++; }
                VCHECK(c->exists(kk), "insert", "[%s] a key just inserted is not there", nm); }
            else if (o < 80) { oplog().add("get", uint64_t(k), in); auto g = c->get(kk);
                VCHECK(g.has_value() || !must, "lost", "[%s] key %lld with %zu more recent keys and capacity %zu is gone", nm, (long long)k, rank, N == 0 ? max : per);
                VCHECK(!g.has_value() || may, "stale", "[%s] key %lld is there although it was %s", nm, (long long)k, N == 0 ? "evicted, cleared or never inserted" : "cleared or never inserted");
                if (g) { VCHECK(g->key == k && g->o.get() == latest[k], "value", "[%s] key %lld has value %lld of key %lld, expected %lld", nm, (long long)k, (long long)g->o.get(), (long long)g->key, (long long)latest[k]); touch(k, latest[k]); VCHECK(c->exists(kk), "get", "[%s] a key just read is not there", nm); cnt("hits")++; }
                else { cnt("misses")++; if (N) { auto q = pos(k); if (q.first != m.end()) m.erase(q.first); } } }
            else if (o < 96) { oplog().add("exists", uint64_t(k), in); bool e = c->exists(kk); VCHECK(e || !must, "lost", "[%s] exists: key %lld with %zu more recent keys is gone", nm, (long long)k, rank); VCHECK(!e || may, "stale", "[%s] exists: key %lld was evicted, cleared or never inserted", nm, (long long)k); if (N && !e && in) m.erase(p.first); }
            else if (o < 97) { oplog().add("clear"); c->clear(); m.clear(); VCHECK(c->size() == 0, "clear", "[%s] size %zu after clear", nm, c->size()); }
            else if (o < 98) { oplog().add("move"); std::unique_ptr<C> d; if (r.chance(50)) d = std::make_unique<C>(std::move(*c)); else { d = std::make_unique<C>(per * shards); for (int64_t q = 0; q < 3; ++q) d->insert(mkkey<K>(q), LVal(q, 5)); *d = std::move(*c); } c = std::move(d); }
            else if (o >= 100) { oplog().add("copy", ghost != nullptr); judge_ghost(); std::unique_ptr<C> d; if (r.chance(50)) d = std::make_unique<C>(*c); else { d = std::make_unique<C>(3 * shards); for (int64_t q = 0; q < 3; ++q) d->insert(mkkey<K>(q), LVal(q, 5)); *d = *c; }
                if (r.chance(20)) { C& self = *d; *d = self; }
                gin.assign(univ, 0); for (int64_t q = 0; q < int64_t(univ); ++q) { gin[size_t(q)] = c->exists(mkkey<K>(q)); VCHECK(bool(gin[size_t(q)]) == d->exists(mkkey<K>(q)), "copy", "[%s] key %lld is %s the copy only", nm, (long long)q, gin[size_t(q)] ? "not in" : "in"); }
                VCHECK(d->size() == c->size(), "copy", "[%s] a copy has size %zu, its source %zu", nm, d->size(), c->size()); glatest = latest; gm = m; gmax = max; if (r.chance(50)) std::swap(c, d); ghost = std::move(d); }
            else if (o < 99) { oplog().add("grow"); if (N == 0) { max += r.below(3); c->set_cache_size(max); } else c->reserve(max * 2); }
            else { oplog().add("all"); if (N == 0) { std::vector<int64_t> want; for (auto& x : m) want.push_back(x.first); for (int64_t q = 0; q < int64_t(univ); ++q) { bool e = c->exists(mkkey<K>(q)); bool w = std::find(want.begin(), want.end(), q) != want.end(); VCHECK(e == w, "contents", "[%s] key %lld is %spresent", nm, (long long)q, e ? "" : "not "); } } }
            VCHECK(c->size() <= max, "capacity", "[%s] size %zu exceeds the capacity %zu", nm, c->size(), max);
            if (N == 0) VCHECK(c->size() == m.size(), "size", "[%s] size %zu, expected %zu", nm, c->size(), m.size());
        }
        judge_ghost(); stat_max("max_size", c->size());
    }
    check_no_leaks(nm);
}
void c_lru(Rng& r, uint64_t i) {
    switch (i % 6) {
    case 5: return lru_case<int64_t, 2, std::shared_mutex>(r, "lru_cache_impl<int64,2,shared_mutex>");
    case 0: return lru_case<int64_t, 0, gtl::NullMutex>(r, "lru_cache<int64>");
    case 1: return lru_case<std::string, 0, gtl::NullMutex>(r, "lru_cache<string>");
    case 2: return lru_case<int64_t, 0, std::mutex>(r, "lru_cache_impl<int64,0,mutex>");
    case 3: return lru_case<int64_t, 3, std::mutex>(r, "lru_cache_impl<int64,3,mutex>");
    case 4: return lru_case<std::string, 6, std::mutex>(r, "mt_lru_cache<string>");
    }
}

// ------------------------------------------------------------------ concurrent caches
struct CEv { int64_t key, val; uint64_t s, e; };
template<size_t N, class Mx = MonMutex> void lru_mt(Rng& r, const char* nm) {
    using C = gtl::lru_cache_impl<int64_t, Val, N, PHash, std::equal_to<int64_t>, Mx>;
    g_hmode = r.chance(70) ? 0 : int(r.below(3)); g_perturb = r.pick<unsigned>({ 0, 20, 100 });
    int T = int(r.range(2, 4)); size_t per = r.pick<size_t>({ 3, 4, 10 }), max = per * C::num_submaps, univ = r.pick<size_t>({ 2, 4, per + 2, 3 * max }); size_t n = r.pick<size_t>({ 30, 120 }); uint64_t seed = r.next(); bool clr = r.chance(20);
    oplog().add(nm, max, univ); oplog().add("threads", uint64_t(T), seed); oplog().add("ops", n, clr);
    C c(max); std::atomic<uint64_t> clk{ 1 }; std::atomic<int64_t> id{ 1 }; std::vector<std::vector<CEv>> ins(static_cast<size_t>(T)), got(static_cast<size_t>(T));
    team(T, seed, [&](int t) { Rng q(seed ^ mix64(uint64_t(t))); auto& I = ins[size_t(t)]; auto& G = got[size_t(t)];
        for (size_t i = 0; i < n; ++i) { int64_t k = int64_t(q.below(univ)); unsigned o = unsigned(q.below(100));
            if (o < 50) { int64_t v = (id.fetch_add(1) << 20) | k; uint64_t s = clk.fetch_add(1); c.insert(k, Val(v)); I.push_back({ k, v, s, clk.fetch_add(1) }); }
            else if (o < 90) { uint64_t s = clk.fetch_add(1); auto g = c.get(k); uint64_t e = clk.fetch_add(1); if (g) G.push_back({ k, g->get(), s, e }); }
            else if (o < 98) (void)c.exists(k); else if (o < 99 || !clr) { uint64_t s = clk.fetch_add(1); C d(c); uint64_t e = clk.fetch_add(1); for (int64_t x = k; x < k + 4; ++x) { auto g = d.get(x); if (g) G.push_back({ x, g->get(), s, e }); } d.insert(k, Val(7)); } else c.clear(); } });
    g_perturb = 0; VCHECK(t_held == 0, "lock-held", "a lock is still held");
    VCHECK(c.size() <= max, "capacity", "[%s] size %zu exceeds the capacity %zu after a concurrent run", nm, c.size(), max);
    size_t there = 0; for (int64_t k = 0; k < int64_t(univ); ++k) { bool e = c.exists(k); there += e; uint64_t s = clk++; auto g = c.get(k); VCHECK(g.has_value() == e, "inconsistent", "[%s] exists and get disagree", nm); if (g) got[0].push_back({ k, g->get(), s, clk++ }); }
    VCHECK(there == c.size(), "inconsistent", "[%s] size is %zu, but %zu keys are found", nm, c.size(), there);
    std::unordered_map<int64_t, CEv> byval; std::unordered_map<int64_t, std::vector<CEv>> bykey; for (auto& v : ins) for (auto& e : v) { byval[e.val] = e; bykey[e.key].push_back(e); }
    for (auto& v : got) for (auto& g : v) {
        auto it = byval.find(g.val); VCHECK(it != byval.end() && it->second.key == g.key, "value", "[%s] get(%lld) returned a value never inserted for that key", nm, (long long)g.key);
        VCHECK(it->second.s < g.e, "value", "[%s] get(%lld) returned a value inserted later", nm, (long long)g.key);
        for (auto& w : bykey[g.key]) VCHECK(!(w.s > it->second.e && w.e < g.s), "stale", "[%s] get(%lld) returned a value replaced before", nm, (long long)g.key);
        cnt("gets_judged")++;
    }
    // afterwards it still works as a cache: the latest `per` keys of one shard remain
    for (int64_t k = 0; k < 40; ++k) { c.insert(k, Val(k)); auto g = c.get(k); VCHECK(g && g->get() == k, "usable", "[%s] the cache misbehaves after a concurrent run", nm); VCHECK(c.size() <= max, "capacity", "[%s] size %zu exceeds the capacity %zu", nm, c.size(), max); }
}
void c_lrumt(Rng& r, uint64_t i) { switch (i % 5) { case 3: return lru_mt<0, std::shared_mutex>(r, "lru<0,shared_mutex>"); case 4: return lru_mt<2, std::shared_mutex>(r, "lru<2,shared_mutex>"); case 0: return lru_mt<0>(r, "lru<0,mutex>"); case 1: return lru_mt<2>(r, "lru<2,mutex>"); case 2: return lru_mt<6>(r, "mt_lru_cache"); } }

// ------------------------------------------------------------------ memoization
struct Boom : std::exception {};
struct MemoLog { std::atomic<uint64_t> calls{ 0 }, throws{ 0 }; std::mutex m; std::map<std::string, int> by; bool perturbed = false;
    void add(const std::string& k) { calls++; std::lock_guard<std::mutex> l(m); by[k]++; } int of(const std::string& k) { std::lock_guard<std::mutex> l(m); auto it = by.find(k); return it == by.end() ? 0 : it->second; } };
static MemoLog* g_log; static int64_t g_boom = -1000; // argument which throws
static std::string kstr(int64_t a, int64_t b) { return std::to_string(a) + "," + std::to_string(b); }
static Val f2(int64_t a, int64_t b) { perturb(); if (a == g_boom) { g_log->throws++; throw Boom(); } g_log->add(kstr(a, b)); return Val(a * 1000003 + b); }
static std::string fs(const std::string& a, int b) { if (b == int(g_boom)) { g_log->throws++; throw Boom(); } g_log->add(a + "," + std::to_string(b)); return a + "/" + std::to_string(b); }
static std::function<uint64_t(uint64_t)> g_rec;
static uint64_t frec(uint64_t n) { perturb(); if (int64_t(n) == g_boom) { g_log->throws++; throw Boom(); } g_log->add(std::to_string(n)); return n <= 1 ? n : g_rec(n - 1) + g_rec(n - 2); }
static uint64_t fib(uint64_t n) { uint64_t a = 0, b = 1; while (n--) { uint64_t c = a + b; a = b; b = c; } return a; }

template<bool REC, size_t N, class Mx> void memo_st(Rng& r, const char* nm) {
    MemoLog log; g_log = &log; g_boom = r.chance(50) ? int64_t(r.below(10)) : -1000;
    auto lam = [](int64_t a, int64_t b) -> Val { return f2(a, b); };
    gtl::mt_memoize<decltype(lam), REC, N, Mx> m(lam); gtl::mt_memoize<decltype(&fs), REC, N, Mx> ms(&fs);
    std::set<std::string> seen, seens; size_t n = r.pick<size_t>({ 40, 200 }); int64_t univ = int64_t(r.range(2, 12));
    for (size_t i = 0; i < n; ++i) {
        unsigned o = unsigned(r.below(100)); int64_t a = int64_t(r.below(size_t(univ))), b = int64_t(r.below(size_t(univ))) - 3;
        if (o < 60) { oplog().add("call", uint64_t(a), uint64_t(b)); std::string k = kstr(a, b); int before = log.of(k); bool thrown = false; try { Val v = m(a, b); VCHECK(v.get() == a * 1000003 + b, "value", "[%s] f(%lld,%lld) returned %lld", nm, (long long)a, (long long)b, (long long)v.get()); } catch (const Boom&) { thrown = true; }
            VCHECK(thrown == (a == g_boom), "exception", "[%s] an exception of the function %s", nm, thrown ? "appeared from nowhere" : "was swallowed"); int calls = log.of(k) - before; if (!thrown) { VCHECK(calls == (seen.count(k) ? 0 : 1), "calls", "[%s] %d calls of the function for %s arguments", nm, calls, seen.count(k) ? "known" : "new"); seen.insert(k); } cnt(thrown ? "throws" : calls ? "computed" : "remembered")++; }
        else if (o < 75) { oplog().add("contains", uint64_t(a), uint64_t(b)); auto before = log.calls.load(); auto g = m.contains(a, b); bool e = seen.count(kstr(a, b)); VCHECK(g.has_value() == e && log.calls == before, "contains", "[%s] contains is %d, expected %d", nm, g.has_value(), e); if (g) VCHECK(g->get() == a * 1000003 + b, "contains", "[%s] contains returned the wrong value", nm); }
        else if (o < 96) { oplog().add("call-s", uint64_t(a), uint64_t(b)); std::string s = std::string(size_t(a) * 7, 'q') + std::to_string(a), k = s + "," + std::to_string(b); int before = log.of(k); bool thrown = false; try { VCHECK(ms(s, int(b)) == s + "/" + std::to_string(b), "value", "[%s] wrong string", nm); } catch (const Boom&) { thrown = true; } VCHECK(thrown == (int64_t(int(b)) == g_boom), "exception", "[%s] exception", nm); if (!thrown) { VCHECK(log.of(k) - before == (seens.count(k) ? 0 : 1), "calls", "[%s] %d calls of the string function", nm, log.of(k) - before); seens.insert(k); } }
        else if (o < 98) { oplog().add("boom"); g_boom = r.chance(50) ? int64_t(r.below(10)) : -1000; if (g_boom >= 0) { /* what is already cached stays cached */ std::vector<std::string> none; for (int64_t b2 = -3; b2 < univ - 3; ++b2) if (g_boom < univ && seen.count(kstr(g_boom, b2))) { g_boom = -1000; break; } for (auto& k : seens) if (g_boom >= 0 && k.substr(k.find(',') + 1) == std::to_string(g_boom)) { g_boom = -1000; break; } } }
        else if (o < 99) { oplog().add("clear"); m.clear(); seen.clear(); VCHECK(m.size() == 0, "clear", "[%s] size after clear", nm); }
        else if (r.chance(50)) { oplog().add("reserve"); m.reserve(100); }
        else { oplog().add("copy"); auto d(m); auto before = log.calls.load(); VCHECK(d.size() == m.size(), "copy", "[%s] a copy has %zu results, its source %zu", nm, d.size(), m.size());
            for (auto& k : seen) { long long x, y; sscanf(k.c_str(), "%lld,%lld", &x, &y); VCHECK(d(x, y).get() == x * 1000003 + y && log.calls == before, "copy", "[%s] a copy computes a known result again", nm); }
            if (r.chance(50)) d.clear(); else VCHECK(d(5000, 1).get() == 5000 * int64_t(1000003) + 1, "copy", "[%s] a copy returns a wrong result", nm);
            VCHECK(m.size() == seen.size() && !m.contains(5000, 1), "copy", "[%s] using a copy changes the source", nm); cnt("copies_judged")++; }
        VCHECK(m.size() == seen.size() && ms.size() == seens.size(), "size", "[%s] %zu results cached, expected %zu", nm, m.size(), seen.size());
    }
    g_boom = -1000;
}
template<class MM> void memo_rec(Rng& r, const char* nm, MM& m) {
    MemoLog log; g_log = &log; g_boom = r.chance(40) ? int64_t(r.below(20)) : -1000; g_rec = [&](uint64_t n) { return m(n); };
    for (int i = 0; i < 6; ++i) { uint64_t n = r.below(60); oplog().add("fib", n, uint64_t(g_boom)); bool thrown = false; try { VCHECK(m(n) == fib(n), "value", "[%s] fib(%llu) is wrong", nm, (unsigned long long)n); } catch (const Boom&) { thrown = true; if (r.chance(50)) g_boom = -1000; }
        if (g_boom < 0 && !thrown) for (auto& k : log.by) VCHECK(k.second == 1 || log.throws, "calls", "[%s] fib(%s) computed %d times", nm, k.first.c_str(), k.second); cnt("fibs")++; }
    g_boom = -1000; uint64_t n = r.below(90); VCHECK(m(n) == fib(n), "value", "[%s] fib(%llu) is wrong", nm, (unsigned long long)n);
    auto before = log.calls.load(); VCHECK(m(n) == fib(n) && log.calls == before, "calls", "[%s] a known result was computed again", nm);
    for (uint64_t k = 0; k < 3; ++k) if (n > 3) { auto g = m.contains(n - k); VCHECK(g && *g == fib(n - k), "contains", "[%s] a result computed on the way is not cached", nm); }
}
template<size_t N> void memo_lru_rec(Rng& r, const char* nm) { // bounded, single threaded, recursive
    MemoLog log; g_log = &log; g_boom = r.chance(30) ? int64_t(r.below(12)) : -1000; using MM = gtl::memoize_lru<decltype(&frec), N>; auto fp = &frec; size_t per = r.pick<size_t>({ 4, 6, 12, 100 }), max = per * MM::num_submaps; MM m(fp, max); g_rec = [&](uint64_t n) { return m(n); };
    size_t calls = 0;
    for (int i = 0; i < 8; ++i) { uint64_t n = r.below(per < 12 ? 14 : 40); if (per >= 100) n = r.below(90); oplog().add("fib", n, uint64_t(g_boom)); bool thrown = false; try { VCHECK(m(n) == fib(n), "value", "[%s] fib(%llu) is wrong", nm, (unsigned long long)n); } catch (const Boom&) { thrown = true; if (r.chance(50)) g_boom = -1000; }
        VCHECK(!thrown || log.throws, "exception", "[%s] exception", nm); VCHECK(m.size() <= max, "capacity", "[%s] %zu results cached, limit %zu", nm, m.size(), max); ++calls;
        if (!thrown) { auto before = log.calls.load(); auto g = m.contains(n); VCHECK(g && *g == fib(n) && m(n) == fib(n) && log.calls == before, "contains", "[%s] a result just returned is not cached", nm); }
        if (per >= 100 && !log.throws) { for (auto& k : log.by) VCHECK(k.second == 1, "calls", "[%s] fib(%s) computed %d times", nm, k.first.c_str(), k.second); VCHECK(m.size() == log.by.size(), "size", "[%s] %zu results cached, %zu computed", nm, m.size(), log.by.size()); }
        for (uint64_t k = 0; k < 90; ++k) { auto g = m.contains(k); VCHECK(!g || *g == fib(k), "contains", "[%s] a wrong result is cached", nm); } }
    cnt("fibs") += calls; g_boom = -1000; if (r.chance(30)) { m.clear(); VCHECK(m.size() == 0 && m(20) == fib(20), "clear", "[%s] clear", nm); }
}
template<size_t N, class Mx> void memo_lru_st(Rng& r, const char* nm) {
    MemoLog log; g_log = &log; g_boom = r.chance(40) ? int64_t(r.below(10)) : -1000; using MM = gtl::mt_memoize_lru<decltype(&f2), N, Mx>; auto fp = &f2;
    size_t per = r.pick<size_t>({ 3, 4, 6, 12 }), max = per * MM::num_submaps; MM m(fp, max); std::list<std::string> rec; int64_t univ = int64_t(r.range(2, 14)); size_t n = r.pick<size_t>({ 60, 300 });
    for (size_t i = 0; i < n; ++i) {
        unsigned o = unsigned(r.below(100)); int64_t a = int64_t(r.below(size_t(univ))), b = int64_t(r.below(2)); std::string k = kstr(a, b); size_t rank = 0; bool in = false; for (auto& x : rec) { if (x == k) { in = true; break; } ++rank; }
        if (o < 80) { oplog().add("call", uint64_t(a), uint64_t(b)); int before = log.of(k); bool thrown = false; try { Val v = m(a, b); VCHECK(v.get() == a * 1000003 + b, "value", "[%s] f(%lld,%lld) returned %lld", nm, (long long)a, (long long)b, (long long)v.get()); } catch (const Boom&) { thrown = true; } VCHECK(thrown == (a == g_boom), "exception", "[%s] exception", nm);
            int calls = log.of(k) - before; if (!thrown) { VCHECK(calls <= 1, "calls", "[%s] %d calls for one result", nm, calls); VCHECK(calls == 0 || !(in && rank < per - 1), "calls", "[%s] a result was computed again although only %zu others were used since (capacity %zu)", nm, rank, per); VCHECK(calls == 1 || in, "calls", "[%s] a result was never computed", nm); rec.remove(k); rec.push_front(k); cnt(calls ? "computed" : "remembered")++; auto g = m.contains(a, b); VCHECK(g && g->get() == a * 1000003 + b, "contains", "[%s] a result just returned is not cached", nm); } }
        else if (o < 97) { oplog().add("contains", uint64_t(a), uint64_t(b)); auto g = m.contains(a, b); VCHECK(g.has_value() || !(in && rank < per - 1), "contains", "[%s] a recent result is not cached", nm); VCHECK(!g || (in && g->get() == a * 1000003 + b), "contains", "[%s] contains returned something never computed", nm); }
        else if (o < 98) { oplog().add("clear"); m.clear(); rec.clear(); }
        else { oplog().add("copy"); auto base = m.size(); MM d(m); if (r.chance(50)) { MM e(fp, max); if (a != g_boom) e(a, b); e = d; d = std::move(e); }
            std::vector<std::pair<int64_t, int64_t>> had; for (int64_t x = 0; x < univ; ++x) for (int64_t y = 0; y < 2; ++y) { auto g = m.contains(x, y), h = d.contains(x, y); VCHECK(g.has_value() == h.has_value() && (!h || h->get() == x * 1000003 + y), "copy", "[%s] a copy differs from its source", nm); if (g) had.push_back({ x, y }); }
            VCHECK(d.size() == base && had.size() == base, "copy", "[%s] a copy has %zu results, its source %zu", nm, d.size(), base);
            auto before = log.calls.load(); if (!had.empty()) { auto h = had[r.below(had.size())]; VCHECK(d(h.first, h.second).get() == h.first * 1000003 + h.second && log.calls == before, "copy", "[%s] a copy computes a known result again", nm); }
            for (int64_t x = 100; x < 100 + int64_t(max); ++x) VCHECK(d(x, 1).get() == x * 1000003 + 1 && d.size() <= max, "copy", "[%s] a copy misbehaves", nm);
            VCHECK(m.size() == base, "copy", "[%s] using a copy changes the source", nm); for (auto& h : had) { auto g = m.contains(h.first, h.second); VCHECK(g && g->get() == h.first * 1000003 + h.second, "copy", "[%s] using a copy changes the source", nm); } cnt("copies_judged")++; }
        VCHECK(m.size() <= max, "capacity", "[%s] %zu results cached, limit %zu", nm, m.size(), max);
    }
    g_boom = -1000;
}
void c_memo(Rng& r, uint64_t i) {
    switch (i % 11) {
    case 9: return memo_lru_rec<0>(r, "memoize_lru<0> fib"); case 10: return memo_lru_rec<2>(r, "memoize_lru<2> fib");
    case 0: return memo_st<true, 4, gtl::NullMutex>(r, "memoize");
    case 1: return memo_st<true, 6, std::mutex>(r, "mt_memoize");
    case 2: return memo_st<false, 6, std::mutex>(r, "mt_memoize<non-recursive>");
    case 3: return memo_st<false, 0, std::shared_mutex>(r, "mt_memoize<non-recursive,0,shared>");
    case 4: return memo_lru_st<0, gtl::NullMutex>(r, "memoize_lru<0>");
    case 5: return memo_lru_st<0, std::mutex>(r, "mt_memoize_lru<0>");
    case 6: return memo_lru_st<4, gtl::NullMutex>(r, "memoize_lru");
    case 7: { auto fp = &frec; gtl::memoize<decltype(fp)> m(fp); return memo_rec(r, "memoize fib", m); }
    case 8: { auto fp = &frec; gtl::mt_memoize<decltype(fp)> m(fp); return memo_rec(r, "mt_memoize fib", m); }
    }
}
template<class MM> void memo_mt(Rng& r, const char* nm, bool once, size_t max, MM& m, MemoLog& log) {
    g_perturb = r.pick<unsigned>({ 0, 30, 150 }); int T = int(r.range(2, 4)); int64_t univ = int64_t(r.pick<size_t>({ 1, 3, 8 })); size_t n = r.pick<size_t>({ 20, 80 }); uint64_t seed = r.next(); g_boom = r.chance(25) ? int64_t(r.below(4)) : -1000;
    oplog().add(nm, uint64_t(univ), uint64_t(g_boom)); oplog().add("threads", uint64_t(T), seed); oplog().add("ops", n);
    std::atomic<uint64_t> done{ 0 };
    team(T, seed, [&](int t) { Rng q(seed ^ mix64(uint64_t(t) + 9)); for (size_t i = 0; i < n; ++i) { int64_t a = int64_t(q.below(size_t(univ))), b = int64_t(q.below(2)); bool thrown = false;
        if (q.chance(85)) { try { Val v = m(a, b); VCHECK(v.get() == a * 1000003 + b, "value", "[%s] f(%lld,%lld) returned %lld", nm, (long long)a, (long long)b, (long long)v.get()); } catch (const Boom&) { thrown = true; } VCHECK(thrown == (a == g_boom), "exception", "[%s] exception", nm); }
        else { auto g = m.contains(a, b); if (g) VCHECK(a != g_boom && g->get() == a * 1000003 + b, "contains", "[%s] contains returned %lld", nm, (long long)g->get()); }
        done++; } });
    g_perturb = 0; cnt("calls_judged") += done.load(); VCHECK(t_held == 0, "lock-held", "a lock is still held");
    if (once) for (auto& k : log.by) VCHECK(k.second == 1, "calls", "[%s] f(%s) was computed %d times", nm, k.first.c_str(), k.second);
    if (max) VCHECK(m.size() <= max, "capacity", "[%s] %zu results cached, limit %zu", nm, m.size(), max); else VCHECK(m.size() == log.by.size(), "size", "[%s] %zu results cached, %zu computed", nm, m.size(), log.by.size());
    auto before = log.calls.load(); if (!max) for (auto& k : std::map<std::string, int>(log.by)) { long long a, b; sscanf(k.first.c_str(), "%lld,%lld", &a, &b); VCHECK(m(a, b).get() == a * 1000003 + b, "value", "[%s] afterwards", nm); } VCHECK(log.calls == before, "calls", "[%s] a known result was computed again", nm);
    g_boom = -1000;
}
void c_memomt(Rng& r, uint64_t i) {
    MemoLog log; g_log = &log; auto fp = &f2;
    switch (i % 9) {
    case 6: { gtl::mt_memoize<decltype(fp), true, 2, std::shared_mutex> m(fp); return memo_mt(r, "mt_memoize<shared>", false, 0, m, log); }
    case 7: { gtl::mt_memoize<decltype(fp), false, 1, std::shared_mutex> m(fp); return memo_mt(r, "mt_memoize<non-recursive,shared>", true, 0, m, log); }
    case 8: { gtl::mt_memoize_lru<decltype(fp), 1, std::shared_mutex> m(fp, 8); return memo_mt(r, "mt_memoize_lru<1,shared>", false, 8, m, log); }
    case 5: { // recursive function, several threads
        auto fr = &frec; gtl::mt_memoize<decltype(fr), true, 3, MonMutex> m(fr); g_rec = [&](uint64_t n) { return m(n); }; g_boom = -1000; g_perturb = r.pick<unsigned>({ 0, 30, 150 }); int T = int(r.range(2, 4)); uint64_t seed = r.next(); oplog().add("fib-mt", uint64_t(T), seed); oplog().add("threads"); oplog().add("run");
        team(T, seed, [&](int t) { Rng q(seed ^ mix64(uint64_t(t) + 5)); for (int k = 0; k < 6; ++k) { uint64_t n = q.below(40); VCHECK(m(n) == fib(n), "value", "fib(%llu) is wrong", (unsigned long long)n); } });
        g_perturb = 0; VCHECK(t_held == 0, "lock-held", "a lock is still held"); VCHECK(m.size() == log.by.size(), "size", "%zu results cached, %zu computed", m.size(), log.by.size()); cnt("calls_judged") += uint64_t(T) * 6; return; }
    case 0: { gtl::mt_memoize<decltype(fp), false, 6, MonMutex> m(fp); return memo_mt(r, "mt_memoize<non-recursive>", true, 0, m, log); }
    case 1: { gtl::mt_memoize<decltype(fp), false, 0, MonMutex> m(fp); return memo_mt(r, "mt_memoize<non-recursive,0>", true, 0, m, log); }
    case 2: { gtl::mt_memoize<decltype(fp), true, 2, MonMutex> m(fp); return memo_mt(r, "mt_memoize", false, 0, m, log); }
    case 3: { gtl::mt_memoize_lru<decltype(fp), 0, MonMutex> m(fp, 4); return memo_mt(r, "mt_memoize_lru<0>", false, 4, m, log); }
    case 4: { gtl::mt_memoize_lru<decltype(fp), 2, MonMutex> m(fp, 12); return memo_mt(r, "mt_memoize_lru<2>", false, 12, m, log); }
    }
}
// ------------------------------------------------------------------ a copy of a key or value throws, or memory runs out
struct FKey { Obj o; FKey() : o(0) {} FKey(int64_t k) : o(k) {} int64_t get() const { return o.get(); } friend bool operator==(const FKey& a, const FKey& b) { return a.o == b.o; } };
template<> struct std::hash<FKey> { size_t operator()(const FKey& k) const { return weak_hash(g_hmode, uint64_t(k.get())); } };
// `op` runs with the n-th copy or assignment throwing; returns whether it threw
template<class F> bool faulty(Rng& r, F op) {
    if (r.chance(40)) { op(); return false; }
    FaultKind k = r.chance(80) ? F_CTOR : F_ASSIGN; long n = 1 + long(r.below(k == F_CTOR ? 14 : 3)); oplog().add("arm", uint64_t(k), uint64_t(n));
    arm(k, n); bool thrown = false; try { op(); } catch (const Fault&) { thrown = true; } bool fired = g_fault_fired; disarm();
    VCHECK(thrown == fired, "exception", "an exception was swallowed"); cnt(thrown ? "faults" : "unharmed")++; return thrown;
}
template<size_t N, class Mx> void lru_fault(Rng& r, const char* nm) {
    using C = gtl::lru_cache_impl<FKey, LVal, N, std::hash<FKey>, std::equal_to<FKey>, Mx>; g_hmode = r.chance(70) ? 0 : int(r.below(4));
    { size_t per = r.pick<size_t>({ 3, 4, 6 }), max = per * C::num_submaps, univ = r.pick<size_t>({ per + 1, 3 * max }), n = r.pick<size_t>({ 40, 150 }); C c(max); std::list<std::pair<int64_t, int64_t>> m; int64_t next = 1;
        auto pos = [&](int64_t k) { for (auto it = m.begin(); it != m.end(); ++it) if (it->first == k) return it; return m.end(); };
        // which keys are there, with which values, without disturbing the order
        auto whole = [&]() { std::vector<char> v(univ); size_t there = 0; for (int64_t q = 0; q < int64_t(univ); ++q) there += size_t(v[size_t(q)] = char(c.exists(FKey(q)))); VCHECK(there == c.size(), "inconsistent", "[%s] size is %zu, but %zu keys are found", nm, c.size(), there); VCHECK(there <= max, "capacity", "[%s] size %zu exceeds the capacity %zu", nm, there, max); return v; };
        std::unordered_map<int64_t, int64_t> latest;
        for (size_t i = 0; i < n; ++i) { int64_t k = int64_t(r.below(univ)), v = next++; FKey kk(k); LVal lv(k, v); auto was = whole(); bool in = was[size_t(k)], mv = r.chance(50); unsigned o = unsigned(r.below(100));
            if (o < 60) { oplog().add("insert", uint64_t(k), in); bool t = faulty(r, [&] { if (mv) c.insert(kk, std::move(lv)); else c.insert(kk, lv); });
                if (t) { auto now = whole(); VCHECK(now == was, "exception", "[%s] an insertion which threw changed the keys of the cache", nm); }
                else { VCHECK(c.exists(kk), "insert", "[%s] a key just inserted is not there", nm); latest[k] = v; auto p = pos(k); if (p != m.end()) m.erase(p); m.emplace_front(k, v); if (N == 0 && m.size() > max) { m.pop_back(); cnt("evictions")++; } } }
            else if (o < 90) { oplog().add("get", uint64_t(k), in); std::optional<LVal> g; faulty(r, [&] { auto x = c.get(kk); g = std::move(x); }); VCHECK(whole() == was, "get", "[%s] get changed the keys of the cache", nm);
                g = c.get(kk); VCHECK(g.has_value() == in, "get", "[%s] exists and get disagree", nm); if (g) { VCHECK(g->key == k && g->o.get() == latest[k], "value", "[%s] key %lld has value %lld of key %lld", nm, (long long)k, (long long)g->o.get(), (long long)g->key); auto p = pos(k); if (p != m.end()) m.splice(m.begin(), m, p); } }
            else if (o < 96) { oplog().add("copy"); std::optional<C> d; bool t = faulty(r, [&] { d.emplace(c); }); VCHECK(whole() == was, "copy", "[%s] copying changed the source", nm); if (!t) VCHECK(d->size() == c.size(), "copy", "[%s] a copy has another size", nm); }
            else if (o < 99) { oplog().add("copy-assign"); C d(max); for (int64_t q = 0; q < 2; ++q) d.insert(FKey(q), LVal(q, -5)); bool t = faulty(r, [&] { d = c; }); VCHECK(whole() == was, "copy", "[%s] copying changed the source", nm); if (t) for (int64_t q = 0; q < 2; ++q) { auto g = d.get(FKey(q)); VCHECK(d.size() == 2 && g && g->o.get() == -5, "copy", "[%s] an assignment which threw changed the target", nm); } }
            else { oplog().add("clear"); c.clear(); m.clear(); }
            if (N == 0) { auto now = whole(); for (int64_t q = 0; q < int64_t(univ); ++q) VCHECK(bool(now[size_t(q)]) == (pos(q) != m.end()), "order", "[%s] key %lld is %s the cache, which holds the most recently used %zu", nm, (long long)q, now[size_t(q)] ? "in" : "not in", m.size()); }
        }
        disarm(); for (int64_t q = 0; q < int64_t(univ); ++q) { auto g = c.get(FKey(q)); VCHECK(!g || (g->key == q && g->o.get() == latest[q]), "value", "[%s] a wrong value at the end", nm); cnt("values_judged")++; }
        for (int64_t q = 1000; q < 1000 + 3 * int64_t(max); ++q) { c.insert(FKey(q), LVal(q, q)); auto g = c.get(FKey(q)); VCHECK(g && g->o.get() == q && c.size() <= max, "usable", "[%s] the cache misbehaves after faults", nm); } }
    check_no_leaks(nm);
}
static LVal ff(FKey a) { fault_point(F_CALL); g_log->calls++; int64_t k = a.get(); return LVal(k, k * 31 + 7); }
template<class M> void memo_fault(Rng& r, const char* nm, size_t max, size_t per) {
    MemoLog log; g_log = &log; g_hmode = r.chance(70) ? 0 : int(r.below(4)); auto fp = &ff;
    { std::optional<M> mm; if constexpr (std::is_constructible_v<M, LVal (*&)(FKey), size_t>) mm.emplace(fp, max); else mm.emplace(fp); M& m = *mm; size_t univ = max ? r.pick<size_t>({ per, per + 1, 3 * max }) : r.range(3, 40), n = r.pick<size_t>({ 40, 150 }); std::list<int64_t> rec;
        auto whole = [&]() { std::vector<char> v(univ); size_t there = 0; for (int64_t q = 0; q < int64_t(univ); ++q) { auto g = m.contains(FKey(q)); VCHECK(!g || (g->key == q && g->o.get() == q * 31 + 7), "value", "[%s] a wrong result is cached", nm); there += size_t(v[size_t(q)] = char(g.has_value())); } VCHECK(there == m.size(), "inconsistent", "[%s] size is %zu, but %zu results are found", nm, m.size(), there); VCHECK(!max || there <= max, "capacity", "[%s] %zu results cached, limit %zu", nm, there, max); return v; };
        for (size_t i = 0; i < n; ++i) { int64_t k = int64_t(r.below(univ)); auto was = whole(); bool in = was[size_t(k)]; oplog().add("call", uint64_t(k), in); std::optional<LVal> g; auto before = log.calls.load(); FKey kk(k);
            bool t = faulty(r, [&] { auto x = m(std::move(kk)); g = std::move(x); }); if (t) { VCHECK(whole() == was, "exception", "[%s] a call which threw changed the cached results", nm); continue; }
            VCHECK(g && g->key == k && g->o.get() == k * 31 + 7, "value", "[%s] a wrong result was returned", nm); VCHECK(log.calls - before == (in ? 0u : 1u), "calls", "[%s] %llu calls of the function", nm, (unsigned long long)(log.calls - before)); VCHECK(m.contains(FKey(k)), "contains", "[%s] a result just returned is not cached", nm); cnt("values_judged")++;
            rec.remove(k); rec.push_front(k); if (M::map_type::subcnt() == 1 || !max) { auto now = whole(); size_t rank = 0; for (auto q : rec) if (!max || rank++ < per - 1) VCHECK(now[size_t(q)], "lost", "[%s] a recent result is not cached", nm); } } }
    check_no_leaks(nm);
}
void c_lrufault(Rng& r, uint64_t i) { switch (i % 3) { case 0: return lru_fault<0, gtl::NullMutex>(r, "lru_cache faults"); case 1: return lru_fault<2, std::mutex>(r, "lru_cache_impl<2> faults"); case 2: return lru_fault<0, std::mutex>(r, "lru_cache_impl<0,mutex> faults"); } }
void c_memofault(Rng& r, uint64_t i) {
    using F = LVal (*)(FKey);
    switch (i % 5) {
    case 0: return memo_fault<gtl::mt_memoize_lru<F, 0, gtl::NullMutex>>(r, "memoize_lru<0> faults", 4, 4); case 1: return memo_fault<gtl::mt_memoize_lru<F, 0, std::mutex>>(r, "mt_memoize_lru<0> faults", 5, 5); case 2: return memo_fault<gtl::mt_memoize_lru<F, 2, std::mutex>>(r, "mt_memoize_lru<2> faults", 16, 4);
    case 3: return memo_fault<gtl::mt_memoize<F, true, 2, std::mutex>>(r, "mt_memoize faults", 0, 0); case 4: return memo_fault<gtl::mt_memoize<F, false, 0, std::mutex>>(r, "mt_memoize<non-recursive> faults", 0, 0);
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "lru", c_lru }, { "lrumt", c_lrumt }, { "memo", c_memo }, { "memomt", c_memomt }, { "lrufault", c_lrufault }, { "memofault", c_memofault } }); }
