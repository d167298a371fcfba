// P08: per-key linearizability of recorded concurrent histories (Wing & Gong search).
#include "mt.hpp"
#include <set>
using namespace vf;

enum Kind : uint8_t { INS, ASSIGN, UPS, READ, HAS, MOD, DEL, DELIF, TOGGLE, CLEAR, EXCH, GETDEL };
static const char* KN[] = { "insert", "insert_or_assign", "upsert(callback)", "read(callback)", "contains", "modify_if", "erase", "erase_if", "emplace_single", "clear", "swap", "erase in submap" };
constexpr int64_t NONE = INT64_MIN;
struct Ev { uint64_t t0, t1; Kind kind; int8_t th; const char* name; int64_t key, arg; int res; int64_t obs; bool cond; }; // res -1: unknown

// applies e to state st (NONE: absent); false if the result does not fit
inline bool apply(const Ev& e, int64_t& st) {
    bool pres = st != NONE;
    switch (e.kind) {
    case INS:    if (e.res >= 0 && e.res != !pres) return false; if (!pres) st = e.arg; return true;
    case ASSIGN: if (e.res >= 0 && e.res != !pres) return false; st = e.arg; return true;
    case UPS:    if (e.res != !pres || (pres && e.obs != st)) return false; st = e.arg; return true;
    case READ:   return e.res == int(pres) && (!pres || e.obs == st);
    case HAS:    return e.res == int(pres);
    case MOD:    if (e.res != int(pres) || (pres && e.obs != st)) return false; if (pres) st = e.arg; return true;
    case DEL:    if (e.res != int(pres)) return false; st = NONE; return true;
    case GETDEL: if (e.res != int(pres) || (pres && e.obs != st)) return false; st = NONE; return true;
    case DELIF:  if ((e.obs != NONE) != pres || (pres && e.obs != st) || e.res != int(pres && e.cond)) return false; if (pres && e.cond) st = NONE; return true;
    case TOGGLE: if (e.res != !pres) return false; st = pres ? NONE : e.arg; return true;
    case CLEAR:  st = NONE; return true;
    case EXCH:   if (e.obs != st) return false; st = e.arg; return true;
    }
    return false;
}
struct Lin {
    std::vector<Ev> ev; std::set<std::pair<uint64_t, int64_t>> seen; uint64_t nodes = 0;
    bool dfs(uint64_t mask, int64_t st) {
        if (mask == (ev.size() == 64 ? ~0ull : (1ull << ev.size()) - 1)) return true;
        if (!seen.insert({ mask, st }).second) return false;
        ++nodes;
        uint64_t first_ret = UINT64_MAX;
        for (size_t i = 0; i < ev.size(); ++i) if (!(mask >> i & 1)) first_ret = std::min(first_ret, ev[i].t1);
        for (size_t i = 0; i < ev.size(); ++i) {
            if (mask >> i & 1 || ev[i].t0 > first_ret) continue;
            int64_t s = st;
            if (apply(ev[i], s) && dfs(mask | 1ull << i, s)) return true;
        }
        return false;
    }
};

template<class C, bool MAP>
void lin_case(Rng& r, const char* nm) {
    g_hmode = int(r.below(kHashModes));
    g_perturb = unsigned(r.pick<int>({ 0, 20, 100, 300, 600 }));
    C c(r.chance(50) ? 0 : r.below(64), PHash{}, PEq{});
    int T = int(r.range(2, 4)); size_t NK = r.range(1, 3); size_t nops = r.range(4, 40 / size_t(T)); 
    bool bg = r.chance(70);
    std::atomic<uint64_t> clk{ 1 };
    std::map<int64_t, int64_t> init;
    auto put = [&](C& d, int64_t k, int64_t v) { if constexpr (MAP) d.try_emplace(k, v); else d.insert(k); };
    for (size_t k = 0; k < NK; ++k) if (r.chance(50)) { init[int64_t(k)] = MAP ? 1000000 + int64_t(k) : 1; put(c, int64_t(k), 1000000 + int64_t(k)); }
    size_t nbg = bg ? r.below(40) : 0; for (size_t i = 0; i < nbg; ++i) put(c, 100 + int64_t(i), 5);
    std::vector<std::vector<Ev>> logs{ size_t(T) };
    uint64_t seed = r.next();
    unsigned mix = unsigned(r.below(4)); // 0 all, 1 erase/insert races, 2 callbacks, 3 whole container
    oplog().add(nm, uint64_t(T) * 100 + NK, nops * 10 + mix);
    team(T, seed, [&](int t) {
        auto& lg = logs[size_t(t)]; lg.reserve(200);
        Rng q(seed ^ uint64_t(t * 7919 + 1));
        for (size_t i = 0; i < nops; ++i) {
            int64_t k = int64_t(q.below(NK)); int64_t v = MAP ? int64_t(t + 1) * 1000 + int64_t(i) : 1;
            int64_t obs = NONE; int res = -1;
            uint64_t t0;
            auto B = [&] { t0 = clk.fetch_add(1); };
            auto E = [&](Kind kd, const char* n, int64_t key, bool cond = false) { lg.push_back(Ev{ t0, clk.fetch_add(1), kd, int8_t(t), n, key, v, res, obs, cond }); };
            if (bg && q.chance(40)) { // other keys: growth, rehash and erasure around the observed ones
                int64_t k2 = 1000 + t * 1000 + int64_t(q.below(30));
                if (q.chance(70)) put(c, k2, 7); else c.erase(k2);
                if (q.chance(10)) { size_t n = q.below(300); if (q.chance(50)) c.reserve(n); else c.rehash(n); }
            }
            auto rd = [&](const auto& e) { if constexpr (MAP) obs = e.second.get(); else { perturb(); obs = 1; } };
            unsigned op = unsigned(q.below(26));
            if (mix == 1) op = unsigned(q.pick<int>({ 0, 1, 9, 9, 10, 8, 22, 3 })); else if (mix == 2) op = unsigned(q.pick<int>({ 5, 6, 7, 10, 11, 12, 10 })); else if (mix == 3 && q.chance(50)) op = unsigned(q.range(14, 21));
            switch (op) {
            case 0: B(); if constexpr (MAP) res = c.insert(std::pair<const int64_t, Val>(k, Val(v))).second; else res = c.insert(k).second; E(INS, "insert", k); break;
            case 1: B(); if constexpr (MAP) res = c.emplace(k, Val(v)).second; else res = c.emplace(k).second; E(INS, "emplace", k); break;
            case 2: B(); if constexpr (MAP) res = c.try_emplace(k, v).second; else res = c.emplace_hint(c.end(), k) != c.end() ? -1 : 0; E(INS, "try_emplace", k); break;
            case 3: { B(); bool called = false; c.lazy_emplace(k, [&](const typename C::constructor& ct) { called = true; perturb(); if constexpr (MAP) ct(k, Val(v)); else ct(k); }); res = called; E(INS, "lazy_emplace", k); break; }
            case 4: if constexpr (MAP) { B(); res = c.insert_or_assign(k, Val(v)).second; E(ASSIGN, "insert_or_assign", k); } break;
            case 5: if constexpr (MAP) { B(); res = c.try_emplace_l(k, [&](auto& e) { obs = e.second.get(); e.second.set(v); }, v); E(UPS, "try_emplace_l", k); } break;
            case 6: { B(); res = c.lazy_emplace_l(k, [&](auto& e) { rd(e); if constexpr (MAP) e.second.set(v); }, [&](const typename C::constructor& ct) { perturb(); if constexpr (MAP) ct(k, Val(v)); else ct(k); }); E(UPS, "lazy_emplace_l", k); break; }
            case 7: B(); res = c.if_contains(k, [&](const auto& e) { rd(e); }); E(READ, "if_contains", k); break;
            case 8: B(); res = q.chance(50) ? c.contains(k) : q.chance(50) ? int(c.count(k)) : int(c.find(k) != c.end()); E(HAS, "contains/count/find", k); break;
            case 9: B(); res = int(c.erase(k)); E(DEL, "erase", k); break;
            case 10: { bool d = q.chance(60); B(); res = c.erase_if(k, [&](auto& e) { rd(e); return d; }); E(DELIF, "erase_if", k, d); break; }
            case 11: B(); res = c.modify_if(k, [&](auto& e) { rd(e); if constexpr (MAP) e.second.set(v); }); E(MOD, "modify_if", k); break;
            case 12: B(); if constexpr (MAP) { res = c.try_emplace_p(k, v).second; E(INS, "try_emplace_p", k); } else { res = -1; int64_t a[1] = { k }; c.insert(a, a + 1); E(INS, "insert(range)", k); } break;
            case 13: { B(); bool called = false; c.emplace_single(k, [&](const typename C::constructor& ct) { called = true; perturb(); if constexpr (MAP) ct(k, Val(v)); else ct(k); }); res = called; E(TOGGLE, "emplace_single", k); break; }
            case 14: { std::map<int64_t, int64_t> s; B(); c.for_each([&](const auto& e) { if constexpr (MAP) s[e.first] = e.second.get(); else s[e] = 1; });
                       uint64_t t1 = clk.fetch_add(1); for (int64_t x = 0; x < int64_t(NK); ++x) { auto f = s.find(x); lg.push_back(Ev{ t0, t1, READ, int8_t(t), "for_each", x, 0, f != s.end(), f != s.end() ? f->second : NONE, false }); } break; }
            case 15: if constexpr (MAP) { std::map<int64_t, int64_t> s; B(); c.for_each_m([&](auto& e) { if (e.first < int64_t(NK)) { s[e.first] = e.second.get(); e.second.set(v * 10 + e.first + 5000000); } });
                       uint64_t t1 = clk.fetch_add(1); for (int64_t x = 0; x < int64_t(NK); ++x) { auto f = s.find(x); lg.push_back(Ev{ t0, t1, MOD, int8_t(t), "for_each_m", x, v * 10 + x + 5000000, f != s.end(), f != s.end() ? f->second : NONE, false }); } } break;
            case 16: if (q.chance(40)) { B(); c.clear(); uint64_t t1 = clk.fetch_add(1); for (int64_t x = 0; x < int64_t(NK); ++x) lg.push_back(Ev{ t0, t1, CLEAR, int8_t(t), "clear", x, 0, -1, NONE, false }); } break;
            case 17: { size_t sub = C::subidx(c.hash(k)); res = 0; B(); c.with_submap(sub, [&](const auto& s) { auto it = s.find(k); if (it != s.end()) { res = 1; rd(*it); } }); E(READ, "with_submap", k); break; }
            case 18: { size_t sub = C::subidx(c.hash(k)); res = 0; B(); c.with_submap_m(sub, [&](auto& s) { auto it = s.find(k); if (it != s.end()) { res = 1; rd(*it); s.erase(it); } }); E(GETDEL, "with_submap_m", k); break; }
            case 19: { // swap with a private container
                C d(0, PHash{}, PEq{}); std::map<int64_t, int64_t> mine; for (int64_t x = 0; x < int64_t(NK); ++x) if (q.chance(50)) { mine[x] = MAP ? v * 10 + x + 6000000 : 1; put(d, x, mine[x]); }
                B(); if (q.chance(50)) c.swap(d); else d.swap(c); uint64_t t1 = clk.fetch_add(1);
                for (int64_t x = 0; x < int64_t(NK); ++x) { int64_t o = NONE; d.if_contains(x, [&](const auto& e) { if constexpr (MAP) o = e.second.get(); else o = 1; }); lg.push_back(Ev{ t0, t1, EXCH, int8_t(t), "swap", x, mine.count(x) ? mine[x] : NONE, -1, o, false }); }
                break; }
            case 20: { // merge a private container into the shared one
                C d(0, PHash{}, PEq{}); std::map<int64_t, int64_t> mine; for (int64_t x = 0; x < int64_t(NK); ++x) if (q.chance(60)) { mine[x] = MAP ? v * 10 + x + 7000000 : 1; put(d, x, mine[x]); }
                B(); c.merge(d); uint64_t t1 = clk.fetch_add(1);
                for (auto& x : mine) lg.push_back(Ev{ t0, t1, INS, int8_t(t), "merge", x.first, x.second, !d.contains(x.first), NONE, false });
                break; }
            case 21: { // merge the shared container into a private one: takes everything
                C d(0, PHash{}, PEq{});
                B(); d.merge(c); uint64_t t1 = clk.fetch_add(1);
                for (int64_t x = 0; x < int64_t(NK); ++x) { int64_t o = NONE; d.if_contains(x, [&](const auto& e) { if constexpr (MAP) o = e.second.get(); else o = 1; }); lg.push_back(Ev{ t0, t1, EXCH, int8_t(t), "merge from", x, NONE, -1, o, false }); }
                break; }
            case 22: { // node insertion
                C d(0, PHash{}, PEq{}); put(d, k, v); auto nh = d.extract(k); B(); auto rr = c.insert(std::move(nh)); res = rr.inserted; E(INS, "insert(node)", k);
                VCHECK(rr.node.empty() == rr.inserted, "linearizability", "insert(node) [%s]: inserted %d but the node is %s", nm, res, rr.node.empty() ? "gone" : "still there"); break; }
            case 23: { size_t h = c.hash(k); B(); if constexpr (MAP) res = c.emplace_with_hash(h, k, Val(v)).second; else res = c.emplace_with_hash(h, k).second; E(INS, "emplace_with_hash", k); break; }
            case 24: { size_t h = c.hash(k); B(); res = c.contains(k, h); E(HAS, "contains(,hash)", k); break; }
            default: { size_t sub = C::subidx(c.hash(k)); if (q.chance(30)) { B(); c.clear(sub); uint64_t t1 = clk.fetch_add(1); for (int64_t x = 0; x < int64_t(NK); ++x) if (C::subidx(c.hash(x)) == sub) lg.push_back(Ev{ t0, t1, CLEAR, int8_t(t), "clear(submap)", x, 0, -1, NONE, false }); } break; }
            }
        }
    });
    g_perturb = 0;
    // final state, read after everything
    std::vector<Ev> all; for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
    for (int64_t k = 0; k < int64_t(NK); ++k) { int64_t o = NONE; uint64_t t0 = clk.fetch_add(1); bool f = c.if_contains(k, [&](const auto& e) { if constexpr (MAP) o = e.second.get(); else o = 1; }); all.push_back(Ev{ t0, clk.fetch_add(1), READ, -1, "final", k, 0, f, o, false }); }
    size_t n = 0; for (auto& e : c) { (void)e; ++n; }
    VCHECK(n == c.size(), "size", "after a concurrent history [%s]: size() %zu but %zu elements", nm, c.size(), n);
    std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.t1 < b.t1; });
    uint64_t overlaps = 0; for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size() && all[j].t0 < all[i].t1; ++j) ++overlaps; 
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) if (all[j].t0 < all[i].t1 && all[i].th != all[j].th) { cnt("overlapping_calls")++; }
    (void)overlaps;
    for (auto& e : all) oplog().add(e.name, uint64_t(e.th + 1) * 64 + uint64_t(e.key), uint64_t(e.res + 1));
    for (int64_t k = 0; k < int64_t(NK); ++k) {
        Lin L; for (auto& e : all) if (e.key == k) L.ev.push_back(e);
        if (L.ev.size() > 64) { cnt("histories_too_long")++; continue; }
        std::sort(L.ev.begin(), L.ev.end(), [](const Ev& a, const Ev& b) { return a.t0 < b.t0; });
        cnt("histories_checked")++; cnt("events") += L.ev.size();
        int64_t st = init.count(k) ? init[k] : NONE;
        if (!L.dfs(0, st)) {
            std::string s;
            for (auto& e : L.ev) { char b[200]; snprintf(b, sizeof b, " | T%d [%llu,%llu] %s arg=%lld res=%d obs=%lld%s", e.th, (unsigned long long)e.t0, (unsigned long long)e.t1, e.name, (long long)e.arg, e.res, (long long)(e.obs == NONE ? -1 : e.obs), e.kind == DELIF ? (e.cond ? " (erase)" : " (keep)") : ""); s += b; }
            violation("linearizability", "no sequential order explains the history of key %lld [%s], initially %lld:%.3000s", (long long)k, nm, (long long)(st == NONE ? -1 : st), s.c_str());
        }
        cnt("search_nodes") += L.nodes;
    }
}
#if defined(VF_BOOST)
using XMutex = boost::shared_mutex;
#elif defined(VF_ABSL)
using XMutex = absl::Mutex;
#else
using XMutex = std::shared_mutex;
#endif
int main(int argc, char** argv) {
    hang_limit = 60;
    return run_main(argc, argv, { { "lin", [](Rng& r, uint64_t i) { switch (i % 8) {
        case 0: lin_case<PFM<0, std::mutex>, true>(r, "flat map, 1 submap, mutex"); break;
        case 1: lin_case<PFM<0, XMutex>, true>(r, "flat map, 1 submap, shared_mutex"); break;
        case 2: lin_case<PNM<1, XMutex>, true>(r, "node map, 2 submaps, shared_mutex"); break;
        case 3: lin_case<PFM<4, std::mutex>, true>(r, "flat map, 16 submaps, mutex"); break;
        case 4: lin_case<PFS<0, XMutex>, false>(r, "flat set, 1 submap, shared_mutex"); break;
        case 5: lin_case<PNS<1, std::mutex>, false>(r, "node set, 2 submaps, mutex"); break;
        case 6: lin_case<PFM<2, XMutex>, true>(r, "flat map, 4 submaps, shared_mutex"); break;
        default: lin_case<PFM<1, MonMutex>, true>(r, "flat map, 2 submaps, delaying mutex"); break; } } } });
}
