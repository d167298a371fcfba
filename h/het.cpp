// Heterogeneous keys and precomputed hashes (P06); callback operations of the parallel
// containers used from one thread (P06, P10, P11). Every operation is mirrored by a model.
#include <execution>
#include "hash_specs.hpp"
#include <set>
using namespace vf;
#ifndef CFG
#define CFG 0
#endif

// key representations: a functor is called with one of several equivalent keys
template<class C> struct HetTraits {
    using K = typename C::key_type;
    static constexpr bool str = std::is_same_v<K, std::string>;
};
// modes: 0 stored key type (lvalue), 1 rvalue, 2 view (not terminated) / int64, 3 const char* / Raw (lookup only)
template<class C, class F> void with_key(int rep, int64_t k, bool lookup_only, F f) {
    using K = typename C::key_type;
    if (rep == 0) { const K key = make_of<K>(k); f(key); return; }
    if (rep == 1) { f(make_of<K>(k)); return; }
    if constexpr (std::is_same_v<K, std::string>) {
        std::string s = str_of(k);
        if (rep == 2) { std::string buf = "xx" + s + "999"; std::string_view v(buf.data() + 2, s.size()); f(v); return; }
        const char* p = s.c_str(); f(p);
    } else {
        (void)lookup_only;
        f(int64_t(k));
    }
}
static const char* RN[] = { "key&", "key&&", "view", "cstr" };

template<class C, bool MAP, bool PAR>
struct Het {
    using K = typename C::key_type; using VT = typename C::value_type; using V = typename mapped_of<C>::type;
    C c; std::map<int64_t, int64_t> m; Rng& r; const char* nm; size_t U; int64_t nv = 1;
    Het(Rng& rr, const char* n, C&& cc) : c(std::move(cc)), r(rr), nm(n) { U = r.chance(30) ? r.range(2, 20) : r.range(20, 400); }
    static const K& key_of(const VT& v) { if constexpr (MAP) return v.first; else return v; }
    static int64_t val_of(const VT& v) { if constexpr (MAP) return id_of(v.second); else return 0; }
    void elem(const char* op, int rep, const VT& e, int64_t k) {
        auto f = m.find(k);
        VCHECK(f != m.end() && id_of(key_of(e)) == k && val_of(e) == f->second, "content", "%s(%lld as %s) [%s]: wrong element (key %lld, value %lld, expected %lld)", op, (long long)k, RN[rep], nm, (long long)id_of(key_of(e)), (long long)val_of(e), (long long)(f == m.end() ? -1 : f->second));
    }
    void res(const char* op, int rep, int64_t k, bool got, bool want) { VCHECK(got == want, "result", "%s(%lld as %s) [%s] gives %d, expected %d", op, (long long)k, RN[rep], nm, got, want); cnt("het_results")++; }
    void full() {
        VCHECK(c.size() == m.size(), "size", "[%s] size %zu expected %zu", nm, c.size(), m.size());
        size_t n = 0; for (auto& e : c) { ++n; elem("iteration", 0, e, id_of(key_of(e))); } VCHECK(n == m.size(), "iteration", "[%s] iteration %zu of %zu", nm, n, m.size());
        for (auto& kv : m) VCHECK(c.contains(make_of<K>(kv.first)), "lookup", "[%s] key %lld lost", nm, (long long)kv.first);
        if constexpr (PAR) { // every element in exactly the submap its hash designates
            size_t tot = 0;
            for (size_t i = 0; i < c.subcnt(); ++i) {
                c.with_submap(i, [&](const auto& set) {
                    tot += set.size(); size_t q = 0;
                    for (auto& e : set) { ++q; VCHECK(C::subidx(c.hash(key_of(e))) == i, "submap", "[%s] key %lld lives in submap %zu", nm, (long long)id_of(key_of(e)), i); elem("submap", 0, e, id_of(key_of(e))); }
                    VCHECK(q == set.size(), "submap", "[%s] submap iteration", nm); });
                cnt("submaps_checked")++;
            }
            VCHECK(tot == m.size(), "submap", "[%s] submaps hold %zu of %zu", nm, tot, m.size());
            size_t fe = 0; std::map<int64_t, int> seen;
            auto fcb = [&](const VT& e) { ++fe; VCHECK(seen[id_of(key_of(e))]++ == 0, "callback", "for_each visits twice"); elem("for_each", 0, e, id_of(key_of(e))); };
            if (r.chance(30)) std::as_const(c).for_each(std::execution::seq, fcb); else c.for_each(fcb);
            VCHECK(fe == m.size(), "callback", "[%s] for_each visited %zu of %zu", nm, fe, m.size());
            fe = 0; auto mcb = [&](auto& e) { ++fe; elem("for_each_m", 0, e, id_of(key_of(e))); if constexpr (MAP) if (r.chance(10)) { int64_t v = nv++; e.second = make_of<V>(v); m[id_of(e.first)] = v; } };
            if (r.chance(30)) c.for_each_m(std::execution::seq, mcb); else c.for_each_m(mcb);
            VCHECK(fe == m.size(), "callback", "[%s] for_each_m visited %zu of %zu", nm, fe, m.size());
        }
    }
    void step() {
        int64_t k = int64_t(r.below(U)), v = nv++;
        int rep = int(r.below(4));
        bool present = m.count(k) != 0;
        auto add = [&] { if (!present) m[k] = MAP ? v : 0; };
        unsigned op = unsigned(r.below(PAR ? 34 : 26));
        oplog().add(RN[rep], op, uint64_t(k));
        cnt("het_ops")++;
        with_key<C>(rep, k, false, [&](auto&& x) {
            using X = std::decay_t<decltype(x)>;
            auto fw = [&]() -> decltype(auto) { return std::forward<decltype(x)>(x); };
            (void)fw;
            const auto& cx = x;
            size_t h = c.hash(make_of<K>(k));
            VCHECK(c.hash(cx) == h, "hash", "hash(%lld as %s) [%s] differs from the hash of the stored key", (long long)k, RN[rep], nm);
            const C& cc = c;
            switch (op) {
            case 0: { auto it = cc.find(cx); res("find", rep, k, it != cc.end(), present); if (present) elem("find", rep, *it, k); break; }
            case 1: { auto it = c.find(cx); res("find", rep, k, it != c.end(), present); if (present) elem("find", rep, *it, k); break; }
            case 2: res("contains", rep, k, cc.contains(cx), present); break;
            case 3: res("count", rep, k, cc.count(cx) == 1, present); break;
            case 4: { auto e = c.equal_range(cx); res("equal_range", rep, k, e.first != e.second, present); if (present) { elem("equal_range", rep, *e.first, k); VCHECK(std::next(e.first) == e.second, "result", "equal_range"); } break; }
            case 5: { auto e = cc.equal_range(cx); res("equal_range", rep, k, e.first != e.second, present); if (present) elem("equal_range", rep, *e.first, k); break; }
            case 6: { auto it = c.find(cx, h); res("find(,hash)", rep, k, it != c.end(), present); if (present) elem("find(,hash)", rep, *it, k); break; }
            case 7: { auto it = cc.find(cx, h); res("find(,hash)", rep, k, it != cc.end(), present); if (present) elem("find(,hash)", rep, *it, k); break; }
            case 8: res("contains(,hash)", rep, k, cc.contains(cx, h), present); break;
            case 9: case 10: res("erase", rep, k, c.erase(cx) == 1, present); m.erase(k); break;
            case 11: { auto nh = c.extract(cx); res("extract", rep, k, !nh.empty(), present); m.erase(k);
                       if (present) { if constexpr (MAP) VCHECK(id_of(nh.key()) == k, "content", "extract"); else VCHECK(id_of(nh.value()) == k, "content", "extract");
                           if (r.chance(70)) { int64_t ov = 0; if constexpr (MAP) ov = id_of(nh.mapped());
                               auto put = [&](auto&& n) { if constexpr (!PAR) { if (r.chance(50)) return c.insert(std::move(n), c.hash(make_of<K>(k))); } return c.insert(std::move(n)); };
                               auto rr = put(std::move(nh)); VCHECK(rr.inserted && rr.node.empty() && nh.empty(), "result", "insert(node)"); m[k] = ov; elem("insert(node)", rep, *rr.position, k);
                               // a node with a key which is there comes back
                               if (r.chance(40)) { C o; if constexpr (MAP) o.emplace(make_of<K>(k), make_of<V>(v)); else o.emplace(make_of<K>(k)); auto n2 = o.extract(o.begin()); auto r2 = put(std::move(n2)); VCHECK(!r2.inserted && !r2.node.empty(), "result", "insert(node) with a key already present"); elem("insert(node)", rep, *r2.position, k); if constexpr (MAP) VCHECK(id_of(r2.node.key()) == k && id_of(r2.node.mapped()) == v, "content", "insert(node) with a key already present changes the node"); else VCHECK(id_of(r2.node.value()) == k, "content", "insert(node) with a key already present changes the node"); } } }
                       else { if constexpr (!PAR) { auto rr = c.insert(std::move(nh), c.hash(make_of<K>(k))); VCHECK(!rr.inserted && rr.node.empty() && rr.position == c.end(), "result", "insert(empty node, hash)"); } } break; }
            case 12: case 13: if constexpr (MAP) { auto p = c.emplace(fw(), make_of<V>(v)); add(); res("emplace", rep, k, p.second, !present); elem("emplace", rep, *p.first, k); }
                     else { auto p = c.emplace(fw()); add(); res("emplace", rep, k, p.second, !present); elem("emplace", rep, *p.first, k); } break;
            case 14: if constexpr (!MAP) { if constexpr (std::is_convertible_v<X, K>) { auto p = c.insert(fw()); add(); res("insert", rep, k, p.second, !present); elem("insert", rep, *p.first, k); } }
                     else { auto p = c.try_emplace(fw(), make_of<V>(v)); add(); res("try_emplace", rep, k, p.second, !present); elem("try_emplace", rep, *p.first, k); } break;
            case 15: if constexpr (MAP) { auto p = c.insert_or_assign(fw(), make_of<V>(v)); m[k] = v; res("insert_or_assign", rep, k, p.second, !present); elem("insert_or_assign", rep, *p.first, k); } break;
            case 16: if constexpr (MAP) { c[fw()] = make_of<V>(v); m[k] = v; } break;
            case 17: if constexpr (MAP) { bool thrown = false; try { auto& y = cc.at(cx); VCHECK(id_of(y) == m.at(k), "content", "at(%lld as %s) [%s]", (long long)k, RN[rep], nm); } catch (const std::out_of_range&) { thrown = true; } res("at", rep, k, !thrown, present); } break;
            case 18: if constexpr (MAP) { bool thrown = false; try { auto& y = c.at(cx); VCHECK(id_of(y) == m.at(k), "content", "at(%lld as %s) [%s]", (long long)k, RN[rep], nm); y = make_of<V>(v); m[k] = v; } catch (const std::out_of_range&) { thrown = true; } res("at", rep, k, !thrown, present); } break;
            case 19: { bool called = false; auto it = c.lazy_emplace(cx, [&](const typename C::constructor& ct) { called = true; if constexpr (MAP) ct(fw(), make_of<V>(v)); else ct(fw()); }); add(); res("lazy_emplace", rep, k, called, !present); elem("lazy_emplace", rep, *it, k); break; }
            case 20: { bool called = false; auto it = c.lazy_emplace_with_hash(cx, h, [&](const typename C::constructor& ct) { called = true; if constexpr (MAP) ct(fw(), make_of<V>(v)); else ct(fw()); }); add(); res("lazy_emplace_with_hash", rep, k, called, !present); elem("lazy_emplace_with_hash", rep, *it, k); break; }
            case 21: if constexpr (MAP) { auto p = c.emplace_with_hash(h, fw(), make_of<V>(v)); add(); res("emplace_with_hash", rep, k, p.second, !present); elem("emplace_with_hash", rep, *p.first, k); }
                     else { auto p = c.emplace_with_hash(h, fw()); add(); res("emplace_with_hash", rep, k, p.second, !present); elem("emplace_with_hash", rep, *p.first, k); } break;
            case 22: if constexpr (MAP) { auto it = c.emplace_hint_with_hash(h, c.begin(), fw(), make_of<V>(v)); add(); elem("emplace_hint_with_hash", rep, *it, k); }
                     else { auto it = c.emplace_hint_with_hash(h, c.begin(), fw()); add(); elem("emplace_hint_with_hash", rep, *it, k); } break;
            case 23: { bool called = false; c.emplace_single_with_hash(cx, h, [&](const typename C::constructor& ct) { called = true; if constexpr (MAP) ct(fw(), make_of<V>(v)); else ct(fw()); });
                     res("emplace_single_with_hash", rep, k, called, !present); if (present) m.erase(k); else add(); break; }
            case 24: { c.prefetch(cx); c.prefetch_hash(h); break; }
            case 25: if constexpr (MAP && !PAR) { auto it = c.try_emplace(c.begin(), fw(), make_of<V>(v)); add(); elem("try_emplace(hint)", rep, *it, k); }
                     else if constexpr (MAP) { auto p = c.try_emplace_with_hash(h, fw(), make_of<V>(v)); add(); res("try_emplace_with_hash", rep, k, p.second, !present); elem("try_emplace_with_hash", rep, *p.first, k); } break;
            default:
                if constexpr (PAR) {
                    int calls = 0;
                    switch (op) {
                    case 26: { bool b = cc.if_contains(cx, [&](const VT& e) { ++calls; elem("if_contains", rep, e, k); }); res("if_contains", rep, k, b, present); break; }
                    case 27: { bool b = cc.if_contains_unsafe(cx, [&](const VT& e) { ++calls; elem("if_contains_unsafe", rep, e, k); }); res("if_contains_unsafe", rep, k, b, present); break; }
                    case 28: { bool b = c.modify_if(cx, [&](VT& e) { ++calls; elem("modify_if", rep, e, k); if constexpr (MAP) { e.second = make_of<V>(v); m[k] = v; } }); res("modify_if", rep, k, b, present); break; }
                    case 29: { bool del = r.chance(60); bool b = c.erase_if(cx, [&](VT& e) { ++calls; elem("erase_if", rep, e, k); if constexpr (MAP) if (!del) { e.second = make_of<V>(v); m[k] = v; } return del; }); res("erase_if", rep, k, b, present && del); if (del) m.erase(k); break; }
                    case 30: { int ct_calls = 0; bool b = c.lazy_emplace_l(cx, [&](VT& e) { ++calls; elem("lazy_emplace_l", rep, e, k); if constexpr (MAP) { e.second = make_of<V>(v); m[k] = v; } },
                                   [&](const typename C::constructor& ct) { ++ct_calls; if constexpr (MAP) ct(fw(), make_of<V>(v)); else ct(fw()); });
                               VCHECK(ct_calls == !present, "callback", "lazy_emplace_l(%lld) [%s]: constructor called %d times, present %d", (long long)k, nm, ct_calls, present); res("lazy_emplace_l", rep, k, b, !present); add(); break; }
                    case 31: if constexpr (MAP) { bool b = c.try_emplace_l(fw(), [&](VT& e) { ++calls; elem("try_emplace_l", rep, e, k); e.second = make_of<V>(v); m[k] = v; }, make_of<V>(v)); res("try_emplace_l", rep, k, b, !present); add(); } else calls = present; break;
                    case 32: if constexpr (MAP) { auto p = c.try_emplace_p(fw(), make_of<V>(v)); add(); res("try_emplace_p", rep, k, p.second, !present); elem("try_emplace_p", rep, *p.first, k); } calls = present; break;
                    default: { // through the submap
                        size_t i = C::subidx(h); calls = present;
                        c.with_submap_m(i, [&](auto& set) { auto it = set.find(cx); res("submap find", rep, k, it != set.end(), present); if (it != set.end()) { elem("submap find", rep, *it, k); if (r.chance(40)) { set.erase(it); m.erase(k); } } });
                        if (c.subcnt() > 1) c.with_submap((i + 1) % c.subcnt(), [&](const auto& set) { VCHECK(!set.contains(cx), "submap", "[%s] key found in a foreign submap", nm); });
                        break; }
                    }
                    VCHECK(calls == int(present), "callback", "callback operation %u(%lld as %s) [%s] called its function %d times, key present: %d", op, (long long)k, RN[rep], nm, calls, present);
                    cnt("callbacks") += uint64_t(calls);
                }
            }
            if constexpr (std::is_same_v<X, K>) if (rep == 0) VCHECK(id_of(cx) == k, "argument", "op %u changed its key argument", op);
        });
        bool now = m.count(k) != 0;
        VCHECK(c.contains(make_of<K>(k)) == now, "lookup", "after op %u(%lld as %s) [%s]: contains gives %d, expected %d", op, (long long)k, RN[rep], nm, !now, now);
        VCHECK(c.size() == m.size(), "size", "after op %u(%lld as %s) [%s]: size %zu expected %zu", op, (long long)k, RN[rep], nm, c.size(), m.size());
    }
    void whole() { // whole-container operations of the parallel containers
        if constexpr (PAR) {
            oplog().add("whole", 0);
            switch (r.below(5)) {
            case 0: { size_t i = r.below(c.subcnt()); std::vector<int64_t> ks; c.with_submap(i, [&](const auto& s) { for (auto& e : s) ks.push_back(id_of(key_of(e))); }); c.clear(i); for (auto k : ks) m.erase(k); break; }
            case 1: c.rehash(r.below(400)); break;
            case 2: { size_t n = r.below(500); c.reserve(n); break; }
            case 3: { size_t cap = 0, bc = 0; for (size_t i = 0; i < c.subcnt(); ++i) c.with_submap(i, [&](const auto& s) { cap += s.capacity(); bc += s.bucket_count(); }); VCHECK(c.capacity() == cap && c.bucket_count() == bc, "capacity", "capacity() is not the sum over the submaps");
                      VCHECK(c.load_factor() >= 0 && c.load_factor() <= 1, "load", "load_factor"); break; }
            default: if (r.chance(20)) { c.clear(); m.clear(); } break;
            }
        }
    }
    void run() {
        size_t n = r.range(50, 400), fc = r.range(20, 80);
        for (size_t i = 0; i < n; ++i) { step(); if (r.chance(2)) whole(); if (i % fc == 0) full(); }
        full();
    }
};
template<class C, bool MAP, bool PAR> void het_case(Rng& r, const char* nm) {
    {
        if constexpr (std::is_constructible_v<typename C::hasher, HState> || requires { typename C::hasher{ HState{} }; }) {
            HState hs; hs.mode = int(r.below(kHashModes));
            Het<C, MAP, PAR> h(r, nm, C(r.below(20), typename C::hasher{ hs }, typename C::key_equal{ hs })); h.run();
        } else { Het<C, MAP, PAR> h(r, nm, C(r.below(20))); h.run(); }
    }
    check_no_leaks(nm);
}
using S = std::string;
template<class K, class V = int> using SA = std::allocator<std::pair<const K, V>>;
// pointers: raw, unique and shared pointers are interchangeable keys
template<class C> void ptr_case(Rng& r, const char* nm) {
    using K = typename C::key_type;
    std::vector<std::shared_ptr<Obj>> pool; for (int i = 0; i < 60; ++i) pool.push_back(std::make_shared<Obj>(i));
    C c; std::set<Obj*>* dummy = nullptr; (void)dummy;
    std::map<const Obj*, int> m;
    for (size_t q = 0; q < 300; ++q) {
        auto& p = pool[r.below(pool.size())]; Obj* raw = p.get(); const Obj* craw = raw;
        bool present = m.count(raw) != 0;
        unsigned op = unsigned(r.below(5)); oplog().add("ptr", op, uint64_t(p->get()));
        auto chk = [&](const char* o, bool got) { VCHECK(got == present, "result", "%s [%s] gives %d, expected %d", o, nm, got, present); cnt("het_results")++; };
        switch (op) {
        case 0: chk("find(raw)", c.find(raw) != c.end()); break;
        case 1: chk("contains(const raw)", c.contains(craw)); break;
        case 2: chk("erase(raw)", c.erase(raw) == 1); m.erase(raw); break;
        case 3: chk("count(shared)", c.count(p) == 1); break;
        default: if constexpr (std::is_same_v<K, std::shared_ptr<Obj>>) chk("insert", !c.insert(p).second); else chk("insert", !c.insert(raw).second); m[raw] = 1; break;
        }
        VCHECK(c.size() == m.size(), "size", "[%s] size", nm);
        VCHECK(c.hash(raw) == c.hash(p) && c.hash(craw) == c.hash(raw), "hash", "[%s]: raw and smart pointers hash differently", nm);
    }
}
void uptr_case(Rng& r) {
    gtl::flat_hash_set<std::unique_ptr<Obj>> c; std::set<Obj*>* x = nullptr; (void)x; std::vector<Obj*> live;
    for (size_t q = 0; q < 200; ++q) {
        oplog().add("uptr", r.s & 7);
        if (live.empty() || r.chance(55)) { auto p = std::make_unique<Obj>(int64_t(q)); Obj* raw = p.get(); VCHECK(!c.contains(raw), "lookup", "foreign pointer found"); auto i = c.insert(std::move(p)); VCHECK(i.second && i.first->get() == raw, "result", "insert(unique_ptr)"); live.push_back(raw); }
        else { size_t i = r.below(live.size()); Obj* raw = live[i]; auto it = c.find(raw); VCHECK(it != c.end() && it->get() == raw, "lookup", "find(raw) in a set of unique_ptr"); if (r.chance(50)) VCHECK(c.erase(raw) == 1, "result", "erase(raw)"); else c.erase(it); live[i] = live.back(); live.pop_back(); VCHECK(!c.contains(raw), "lookup", "erased pointer found"); }
        VCHECK(c.size() == live.size(), "size", "unique_ptr set");
    }
}
template<class Str> void wide_case(Rng& r, const char* nm) {
    using CH = typename Str::value_type; using View = std::basic_string_view<CH>;
    gtl::flat_hash_map<Str, int> c; std::map<Str, int> m;
    for (size_t q = 0; q < 200; ++q) {
        Str s; size_t n = r.below(20); for (size_t i = 0; i < n; ++i) s.push_back(CH(r.below(3) + (r.chance(30) ? 0x100 : 'a')));
        View v(s); oplog().add("wide", n, r.s & 0xff);
        bool present = m.count(s) != 0; int val = int(q);
        VCHECK(c.contains(v) == present && (c.find(s) != c.end()) == present && (c.find(s.c_str()) != c.end()) == present, "lookup", "[%s] lookup by view, string and pointer differ from the model", nm);
        if (r.chance(60)) { auto p = c.try_emplace(v, val); VCHECK(p.second == !present, "result", "[%s] try_emplace(view)", nm); m.emplace(s, val); VCHECK(p.first->first == s && p.first->second == m[s], "content", "[%s]", nm); }
        else { VCHECK(c.erase(v) == m.erase(s), "result", "[%s] erase(view)", nm); }
        VCHECK(c.size() == m.size(), "size", "[%s]", nm);
        cnt("het_results") += 4;
    }
}
int main(int argc, char** argv) {
    return run_main(argc, argv, {
#if CFG == 0
        { "het", [](Rng& r, uint64_t i) { switch (i % 6) {
            case 0: het_case<gtl::flat_hash_map<S, S>, true, false>(r, "flat_hash_map<string>"); break;
            case 1: het_case<gtl::node_hash_map<S, Obj>, true, false>(r, "node_hash_map<string>"); break;
            case 2: het_case<gtl::flat_hash_set<S>, false, false>(r, "flat_hash_set<string>"); break;
            case 3: het_case<gtl::node_hash_set<S>, false, false>(r, "node_hash_set<string>"); break;
            case 4: het_case<gtl::flat_hash_map<Obj, Obj, Hsh<Obj, true>, Eql<Obj, true>>, true, false>(r, "flat_hash_map<Obj,transparent>"); break;
            default: het_case<gtl::node_hash_set<Obj, Hsh<Obj, true>, Eql<Obj, true>>, false, false>(r, "node_hash_set<Obj,transparent>"); break; } } },
        { "ptr", [](Rng& r, uint64_t i) { switch (i % 5) {
            case 0: ptr_case<gtl::flat_hash_set<Obj*>>(r, "flat_hash_set<T*>"); break;
            case 1: ptr_case<gtl::flat_hash_set<std::shared_ptr<Obj>>>(r, "flat_hash_set<shared_ptr>"); break;
            case 2: uptr_case(r); break;
            case 3: wide_case<std::wstring>(r, "wstring"); break;
            default: wide_case<std::u16string>(r, "u16string"); break; }
            check_no_leaks("pointers"); } },
#elif CFG == 1
        { "het", [](Rng& r, uint64_t i) { switch (i % 4) {
            case 0: het_case<gtl::parallel_flat_hash_map<S, S>, true, true>(r, "parallel_flat_hash_map<string>"); break;
            case 1: het_case<gtl::parallel_node_hash_map<S, Obj, typename gtl::flat_hash_set<S>::hasher, typename gtl::flat_hash_set<S>::key_equal, SA<S, Obj>, 2, std::shared_mutex>, true, true>(r, "parallel_node_hash_map<string,shared_mutex>"); break;
            case 2: het_case<gtl::parallel_flat_hash_set<S, typename gtl::flat_hash_set<S>::hasher, typename gtl::flat_hash_set<S>::key_equal, std::allocator<S>, 3, std::mutex>, false, true>(r, "parallel_flat_hash_set<string,mutex>"); break;
            default: het_case<gtl::parallel_node_hash_set<S, typename gtl::flat_hash_set<S>::hasher, typename gtl::flat_hash_set<S>::key_equal, std::allocator<S>, 0, std::shared_mutex>, false, true>(r, "parallel_node_hash_set<string>"); break; } } },
#elif CFG == 2
        { "het", [](Rng& r, uint64_t i) { switch (i % 4) {
            case 0: het_case<gtl::parallel_flat_hash_map<Obj, Obj, Hsh<Obj, true>, Eql<Obj, true>, SA<Obj, Obj>, 1, std::mutex>, true, true>(r, "parallel_flat_hash_map<Obj,transparent>"); break;
            case 1: het_case<gtl::parallel_node_hash_map<Obj, Obj, Hsh<Obj, true>, Eql<Obj, true>, SA<Obj, Obj>, 4, std::shared_mutex>, true, true>(r, "parallel_node_hash_map<Obj,transparent>"); break;
            case 2: het_case<gtl::parallel_flat_hash_set<Obj, Hsh<Obj, true>, Eql<Obj, true>, std::allocator<Obj>, 5, gtl::NullMutex>, false, true>(r, "parallel_flat_hash_set<Obj,transparent>"); break;
            default: het_case<gtl::parallel_flat_hash_map<int64_t, Obj>, true, true>(r, "parallel_flat_hash_map<int64>"); break; } } },
#endif
    });
}
