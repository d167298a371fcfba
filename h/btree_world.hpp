// Random operation histories on b-tree containers, each mirrored by a sorted vector.
#pragma once
#include "hash_specs.hpp"
#include <gtl/btree.hpp>
#include <list>
#include <sstream>
#include <set>

namespace vf {
inline thread_local uint64_t g_cmp_calls = 0;
// order on canonical keys, possibly descending; equivalence coarser than equality when mod != 0
struct CS { int desc = 0; int64_t mod = 0; };
inline int cmp3(const CS& s, int64_t a, int64_t b) {
    if (s.mod) { a %= s.mod; b %= s.mod; }
    int c = a < b ? -1 : a > b ? 1 : 0;
    return s.desc ? -c : c;
}
template<class K, bool Transparent = false> struct Cmp { CS s; bool operator()(const K& a, const K& b) const { ++g_cmp_calls; fault_point(F_CMP); return cmp3(s, id_of(a), id_of(b)) < 0; } };
template<class K> struct Cmp<K, true> { using is_transparent = void; CS s; template<class A, class B> bool operator()(const A& a, const B& b) const { ++g_cmp_calls; fault_point(F_CMP); return cmp3(s, id_of(a), id_of(b)) < 0; } };
template<class K> struct CmpTo { CS s; std::weak_ordering operator()(const K& a, const K& b) const { ++g_cmp_calls; fault_point(F_CMP); int c = cmp3(s, id_of(a), id_of(b)); return c < 0 ? std::weak_ordering::less : c > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; } };

struct Fat { Obj o; char pad[280]; Fat() : o(0) { fill(); } Fat(int64_t x) : o(x) { fill(); } void fill() { memset(pad, int(o.v) & 0x7f, sizeof pad); }
    int64_t get() const { int64_t v = o.get(); VCHECK(pad[0] == char(v & 0x7f) && pad[279] == char(v & 0x7f), "content", "an element is torn"); return v; }
    bool operator==(const Fat& f) const { return get() == f.get(); } bool operator<(const Fat& f) const { return get() < f.get(); } };
inline int64_t id_of(const Fat& f) { return f.get(); }
inline bool operator<(const Over& a, const Over& b) { return a.get() < b.get(); }

// natural order of the key type's ids, as std::less would order them
template<class K> int natural(int64_t a, int64_t b) {
    if constexpr (std::is_same_v<K, std::string>) { auto x = str_of(a), y = str_of(b); return x < y ? -1 : x == y ? 0 : 1; }
    else return a < b ? -1 : a > b ? 1 : 0;
}
enum BKind { B_STATE, B_LESS, B_GREATER };
template<class C, bool MAP, bool MULTI, BKind KIND, bool TRANSP = false> struct BSpec {
    using Cont = C; using Key = typename C::key_type;
    static constexpr bool is_map = MAP, multi = MULTI, transparent = TRANSP; static constexpr BKind kind = KIND;
    static constexpr bool talloc = std::is_constructible_v<typename C::allocator_type, int>;
    static C make(const CS& s, int id = 0) {
        if constexpr (KIND == B_STATE) { if constexpr (talloc) return C(typename C::key_compare{ s }, typename C::allocator_type(id)); else return C(typename C::key_compare{ s }); }
        else return C();
    }
    static int cmp(const CS& s, int64_t a, int64_t b) {
        if constexpr (KIND == B_STATE) return cmp3(s, a, b); else if constexpr (KIND == B_LESS) return natural<Key>(a, b); else return natural<Key>(b, a);
    }
};
struct E { int64_t k, v; bool operator==(const E& o) const { return k == o.k && v == o.v; } };

template<class S> struct BWorld {
    using C = typename S::Cont; using Key = typename C::key_type; using VT = typename C::value_type; using It = typename C::iterator;
    using Map = typename mapped_of<C>::type;
    static constexpr bool copyable = std::is_copy_constructible_v<VT>;
    static constexpr int NC = 3;
    Rng& r; CS cs[NC]; std::unique_ptr<C> c[NC]; std::vector<E> m[NC]; size_t U; int64_t nextval = 1; const char* nm;
    size_t cap_n; // keep the sizes below

    BWorld(Rng& rr, const char* n, size_t universe, size_t cap) : r(rr), U(universe), nm(n), cap_n(cap) {
        CS s; s.desc = r.chance(40); s.mod = r.chance(25) ? int64_t(r.range(1, 40)) : 0;
        for (int i = 0; i < NC; ++i) { cs[i] = s; c[i] = std::make_unique<C>(S::make(cs[i])); }
    }
    int64_t rkey() { return int64_t(r.below(U)); }
    int cmp(int i, int64_t a, int64_t b) const { return S::cmp(cs[i], a, b); }
    static int64_t kid(const VT& v) { if constexpr (S::is_map) return id_of(v.first); else return id_of(v); }
    static int64_t vid(const VT& v) { if constexpr (S::is_map) return id_of(v.second); else return 0; }
    static E ent(const VT& v) { return E{ kid(v), vid(v) }; }
    VT mk(int64_t k, int64_t v) { if constexpr (S::is_map) return VT(make_of<Key>(k), make_of<Map>(v)); else { (void)v; return make_of<Key>(k); } }
    int64_t nv() { return S::is_map ? (sizeof(Map) == 1 ? nextval++ % 250 : nextval++) : 0; }
    size_t lb(int i, int64_t k) const { size_t a = 0, b = m[i].size(); while (a < b) { size_t x = (a + b) / 2; if (cmp(i, m[i][x].k, k) < 0) a = x + 1; else b = x; } return a; }
    size_t ub(int i, int64_t k) const { size_t a = 0, b = m[i].size(); while (a < b) { size_t x = (a + b) / 2; if (cmp(i, k, m[i][x].k) < 0) b = x; else a = x + 1; } return a; }
    bool has(int i, int64_t k) const { return lb(i, k) != ub(i, k); }
    template<class I> size_t ix(int i, I it) { size_t n = 0; auto e = std::as_const(*c[i]).end(); for (auto b = std::as_const(*c[i]).begin(); b != typename C::const_iterator(it); ++b) { VCHECK(b != e, "iterator", "[%s] an iterator is not reachable from begin()", nm); ++n; } return n; }
    It at(int i, size_t n) { auto it = c[i]->begin(); std::advance(it, std::ptrdiff_t(n)); return it; }

    void full(int i, const char* op) {
        C& x = *c[i]; auto& mm = m[i];
        VCHECK(x.size() == mm.size() && x.empty() == mm.empty(), "size", "[%s] after %s: size %zu, expected %zu", nm, op, x.size(), mm.size());
        size_t n = 0;
        for (auto it = std::as_const(x).begin(); it != std::as_const(x).end(); ++it, ++n) {
            VCHECK(n < mm.size(), "content", "[%s] after %s: iteration yields too many elements", nm, op);
            E e = ent(*it); VCHECK(e == mm[n], "content", "[%s] after %s: element %zu is (%lld,%lld), expected (%lld,%lld)", nm, op, n, (long long)e.k, (long long)e.v, (long long)mm[n].k, (long long)mm[n].v);
        }
        VCHECK(n == mm.size(), "content", "[%s] after %s: iteration yields %zu elements, expected %zu", nm, op, n, mm.size());
        for (auto it = x.rbegin(); it != x.rend(); ++it) { --n; VCHECK(n < mm.size() && ent(*it) == mm[n], "content", "[%s] after %s: backward iteration differs at %zu", nm, op, n); }
        VCHECK(n == 0, "content", "[%s] after %s: backward iteration ends early", nm, op);
        x.verify(); cnt("full_checks")++; stat_max("max_size", mm.size());
    }
    template<class I> void is_at(int i, I it, size_t n, const char* op, int64_t k = 0) {
        size_t x = ix(i, it); VCHECK(x == n, "iterator", "[%s] %s (key %lld) returns an iterator to element %zu, expected %zu of %zu", nm, op, (long long)k, x, n, m[i].size());
    }
    // insertion at the position the standard prescribes (after the equivalent elements)
    size_t model_insert(int i, int64_t k, int64_t v) { size_t p = S::multi ? ub(i, k) : lb(i, k); m[i].insert(m[i].begin() + std::ptrdiff_t(p), E{ k, v }); return p; }
    // result of a unique insertion
    template<class R> void check_ins(int i, R rr, int64_t k, int64_t v, const char* op) {
        if constexpr (S::multi) { size_t p = model_insert(i, k, v); is_at(i, rr, p, op, k); }
        else { bool h = has(i, k); VCHECK(rr.second == !h, "result", "[%s] %s(%lld) returns %d", nm, op, (long long)k, rr.second); size_t p = h ? lb(i, k) : model_insert(i, k, v); is_at(i, rr.first, p, op, k); }
    }
    // hint = index h before the call
    template<class R> void check_hint(int i, R it, int64_t k, int64_t v, size_t h, const char* op) {
        if constexpr (!S::multi) { bool f = has(i, k); size_t p = f ? lb(i, k) : model_insert(i, k, v); is_at(i, it, p, op, k); }
        else {
            size_t l = lb(i, k), u = ub(i, k), p = ix(i, it);
            VCHECK(p >= l && p <= u, "iterator", "[%s] %s inserts key %lld at %zu, not within [%zu,%zu]", nm, op, (long long)k, p, l, u);
            if (h >= l && h <= u) VCHECK(p == h, "iterator", "[%s] %s with the exact hint %zu inserts key %lld at %zu", nm, op, h, (long long)k, p);
            m[i].insert(m[i].begin() + std::ptrdiff_t(p), E{ k, v });
        }
    }
    void copy_from(int i, int j) { m[i] = m[j]; cs[i] = cs[j]; }

    void step() {
        int i = int(r.below(NC)), j = (i + 1 + int(r.below(NC - 1))) % NC; // j != i
        C& x = *c[i]; auto& mm = m[i]; int64_t k = rkey(), v = nv();
        unsigned op = unsigned(r.below(46)); if (g_value && r.chance(50)) op = r.pick<unsigned>({ 29, 30, 31, 32, 33, 34, 36, 38 });
        if (mm.size() > cap_n) op = r.pick<unsigned>({ 20, 21, 22, 23, 24, 28 });
        oplog().add("op", op * 4 + unsigned(i), uint64_t(k));
        switch (op) {
        case 0: if constexpr (copyable) { VT e = mk(k, v); check_ins(i, x.insert(e), k, v, "insert"); } break;
        case 1: case 2: case 3: check_ins(i, x.insert(mk(k, v)), k, v, "insert(&&)"); break;
        case 4: if constexpr (S::is_map) check_ins(i, x.emplace(make_of<Key>(k), make_of<Map>(v)), k, v, "emplace"); else check_ins(i, x.emplace(make_of<Key>(k)), k, v, "emplace"); break;
        case 5: case 6: case 7: { // hints: exact, near, random
            size_t l = lb(i, k), u = ub(i, k), h = r.chance(50) ? r.range(l, u) : r.chance(50) ? std::min(mm.size(), l + r.below(3)) : r.below(mm.size() + 1); if (r.chance(20) && h) --h;
            auto it = at(i, h);
            if (op == 5) check_hint(i, x.insert(it, mk(k, v)), k, v, h, "insert(hint)");
            else if (op == 6) { if constexpr (S::is_map) check_hint(i, x.emplace_hint(it, make_of<Key>(k), make_of<Map>(v)), k, v, h, "emplace_hint"); else check_hint(i, x.emplace_hint(it, make_of<Key>(k)), k, v, h, "emplace_hint"); }
            else if constexpr (copyable) { VT e = mk(k, v); check_hint(i, x.insert(it, e), k, v, h, "insert(hint, const&)"); }
            break; }
        case 8: if constexpr (copyable) { // ranges: vector, sorted or not, initializer list, input iterators
            std::vector<VT> es; std::vector<E> ms; size_t n = r.below(r.chance(20) ? 120 : 12); int64_t k0 = rkey(); unsigned sh = unsigned(r.below(3));
            for (size_t q = 0; q < n; ++q) { int64_t kk = sh == 0 ? rkey() : sh == 1 ? int64_t((k0 + int64_t(q)) % int64_t(U)) : int64_t((k0 + int64_t(U) - int64_t(q) % int64_t(U)) % int64_t(U)); int64_t vv = nv(); es.push_back(mk(kk, vv)); ms.push_back({ kk, vv }); }
            unsigned how = unsigned(r.below(3));
            if (how == 0) x.insert(es.begin(), es.end()); else if (how == 1) { std::list<VT> li(es.begin(), es.end()); x.insert(li.begin(), li.end()); }
            else { x.insert(std::make_move_iterator(es.begin()), std::make_move_iterator(es.end())); }
            for (auto& e : ms) if (S::multi || !has(i, e.k)) model_insert(i, e.k, e.v);
            full(i, "insert(range)"); } break;
        case 9: if constexpr (copyable && std::is_constructible_v<typename std::initializer_list<VT>>) { int64_t k2 = rkey(), v2 = nv(); if constexpr (S::is_map) x.insert({ { make_of<Key>(k), make_of<Map>(v) }, { make_of<Key>(k2), make_of<Map>(v2) } }); else x.insert({ make_of<Key>(k), make_of<Key>(k2) });
            for (auto e : { E{ k, v }, E{ k2, v2 } }) if (S::multi || !has(i, e.k)) model_insert(i, e.k, e.v); full(i, "insert({})"); } break;
        case 10: case 11: if constexpr (S::is_map && !S::multi) { // map only
            unsigned w = unsigned(r.below(5));
            if (w == 0) { bool h = has(i, k); Key kk = make_of<Key>(k); Map mv = make_of<Map>(v); check_ins(i, x.try_emplace(std::move(kk), std::move(mv)), k, v, "try_emplace"); if (h) VCHECK(id_of(kk) == k && id_of(mv) == v, "argument", "[%s] try_emplace moved from its arguments although the key was present", nm); }
            else if (w == 1) { if constexpr (std::is_copy_constructible_v<Key>) { Key kk = make_of<Key>(k); check_ins(i, x.try_emplace(kk, make_of<Map>(v)), k, v, "try_emplace(const&)"); } }
            else if (w == 2) { size_t h = r.below(mm.size() + 1); bool in = has(i, k); Key kk = make_of<Key>(k); Map mv = make_of<Map>(v); check_hint(i, x.try_emplace(at(i, h), std::move(kk), std::move(mv)), k, v, h, "try_emplace(hint)"); if (in) VCHECK(id_of(kk) == k && id_of(mv) == v, "argument", "[%s] try_emplace(hint) moved from its arguments although the key was present", nm); }
            else if (w == 3) { bool h = has(i, k); x[make_of<Key>(k)] = make_of<Map>(v); if (h) mm[lb(i, k)].v = v; else model_insert(i, k, v); }
            else { bool h = has(i, k), thrown = false; try { int64_t got = id_of(x.at(make_of<Key>(k))); VCHECK(h && got == mm[lb(i, k)].v, "result", "[%s] at(%lld) gives %lld", nm, (long long)k, (long long)got); } catch (const std::out_of_range&) { thrown = true; } VCHECK(thrown == !h, "result", "[%s] at(%lld) throws: %d", nm, (long long)k, thrown); }
        } break;
        case 12: case 13: { // lookups
            Key kk = make_of<Key>(k); const C& cx = x; size_t l = lb(i, k), u = ub(i, k), p = l == u ? mm.size() : l;
            VCHECK(cx.contains(kk) == (l != u), "result", "[%s] contains(%lld) is wrong", nm, (long long)k);
            VCHECK(cx.count(kk) == u - l, "result", "[%s] count(%lld) is %zu, expected %zu", nm, (long long)k, size_t(cx.count(kk)), u - l);
            auto f = r.chance(50) ? typename C::const_iterator(x.find(kk)) : cx.find(kk);
            if (S::multi && l != u) { size_t q = ix(i, f); VCHECK(q >= l && q < u, "iterator", "[%s] find(%lld) gives element %zu", nm, (long long)k, q); } else is_at(i, f, p, "find", k);
            is_at(i, x.lower_bound(kk), l, "lower_bound", k); is_at(i, cx.upper_bound(kk), u, "upper_bound", k);
            auto er = cx.equal_range(kk); is_at(i, er.first, l, "equal_range.first", k); is_at(i, er.second, u, "equal_range.second", k);
            is_at(i, cx.lower_bound(kk), l, "lower_bound const", k); is_at(i, x.upper_bound(kk), u, "upper_bound", k); cnt("lookups")++; break; }
        case 14: case 15: if constexpr (S::transparent) { // other key types
            const C& cx = x; size_t l = lb(i, k), u = ub(i, k);
            auto t = [&] { if constexpr (std::is_same_v<Key, std::string>) return str_of(k); else return k; }();
            auto q = [&]() -> decltype(auto) { if constexpr (std::is_same_v<Key, std::string>) return std::string_view(t); else return int64_t(t); }();
            VCHECK(cx.contains(q) == (l != u) && cx.count(q) == u - l, "result", "[%s] heterogeneous lookup of %lld is wrong", nm, (long long)k);
            is_at(i, cx.lower_bound(q), l, "heterogeneous lower_bound", k); is_at(i, cx.upper_bound(q), u, "heterogeneous upper_bound", k);
            auto er = x.equal_range(q); is_at(i, er.first, l, "heterogeneous equal_range", k); is_at(i, er.second, u, "heterogeneous equal_range", k);
            if (op == 15) { size_t n = x.erase(q); VCHECK(n == u - l, "result", "[%s] heterogeneous erase(%lld) returns %zu", nm, (long long)k, n); mm.erase(mm.begin() + std::ptrdiff_t(l), mm.begin() + std::ptrdiff_t(u)); }
            cnt("heterogeneous")++; } break;
        case 16: if constexpr (S::is_map) if (!mm.empty()) { size_t p = r.below(mm.size()); at(i, p)->second = make_of<Map>(v); mm[p].v = v; } break; // through an iterator
        case 17: { // walk
            if (mm.empty()) break; size_t p = r.below(mm.size()); auto it = at(i, p); auto ci = typename C::const_iterator(it);
            for (int s = 0; s < 6; ++s) { VCHECK(ent(*it) == mm[p] && ent(*ci) == mm[p] && it == ci && !(it != ci), "iterator", "[%s] walking from element %zu goes wrong", nm, p);
                if (r.chance(50) && p + 1 < mm.size()) { ++p; if (r.chance(50)) { auto o = it++; VCHECK(ent(*o) == mm[p - 1], "iterator", "[%s] it++ returns another element", nm); ++ci; } else { ++it; ci++; } }
                else if (p > 0) { --p; if (r.chance(50)) { auto o = it--; VCHECK(ent(*o) == mm[p + 1], "iterator", "[%s] it-- returns another element", nm); --ci; } else { --it; ci--; } } }
            break; }
        case 18: case 19: { // arguments which refer to the container's own elements
            if (mm.empty()) break; size_t p = r.chance(50) ? r.below(mm.size()) : r.chance(50) ? 0 : mm.size() - 1; E e = mm[p]; size_t rounds = r.chance(30) ? 12 : 1; cnt("own_elements")++;
            if (op == 19 && r.chance(50)) { if (!r.chance(30)) break; size_t l = lb(i, e.k), u = ub(i, e.k); const Key* kp; if constexpr (S::is_map) kp = &at(i, p)->first; else kp = &*at(i, p); 
                if (r.chance(70)) { size_t n = size_t(x.erase(*kp)); VCHECK(n == u - l, "result", "[%s] erase(own key) returns %zu, expected %zu", nm, n, u - l); mm.erase(mm.begin() + std::ptrdiff_t(l), mm.begin() + std::ptrdiff_t(u)); }
                else { size_t q = ix(i, x.find(*kp)); auto nd = x.extract(*kp); VCHECK(!nd.empty(), "result", "[%s] extract(own key) gives an empty node", nm); mm.erase(mm.begin() + std::ptrdiff_t(q)); }
                full(i, "erase(own key)"); break; }
            for (size_t q = 0; q < rounds && mm.size() <= cap_n; ++q, p = lb(i, e.k)) {
                if constexpr (copyable) {
                    const VT& o = *at(i, p); E eo = mm[p];
                    if constexpr (S::multi) { unsigned w = unsigned(r.below(4)); if (w < 2) check_ins(i, x.insert(o), eo.k, eo.v, "insert(own element)"); else if (w == 2) check_ins(i, x.emplace(o), eo.k, eo.v, "emplace(own element)"); else { size_t h = r.chance(50) ? r.range(lb(i, eo.k), ub(i, eo.k)) : r.below(mm.size() + 1); check_hint(i, x.insert(at(i, h), o), eo.k, eo.v, h, "insert(hint, own element)"); } }
                    else if constexpr (!S::is_map) { VCHECK(!x.insert(o).second, "result", "[%s] insert(own element) inserts", nm); }
                    else { int64_t kk = r.chance(50) ? rkey() : int64_t((eo.k + 1) % int64_t(U)); unsigned w = unsigned(r.below(4)); 
                        if (w == 0) check_ins(i, x.try_emplace(make_of<Key>(kk), o.second), kk, eo.v, "try_emplace(own value)"); else if (w == 1) check_ins(i, x.emplace(make_of<Key>(kk), o.second), kk, eo.v, "emplace(own value)");
                        else if (w == 2) { size_t h = r.chance(50) ? lb(i, kk) : r.below(mm.size() + 1); check_hint(i, x.try_emplace(at(i, h), make_of<Key>(kk), o.second), kk, eo.v, h, "try_emplace(hint, own value)"); }
                        else { Key kq = make_of<Key>(kk); check_ins(i, x.try_emplace(kq, o.second), kk, eo.v, "try_emplace(const&, own value)"); } }
                } }
            full(i, "own elements"); break; }
        case 20: { auto n = x.erase(make_of<Key>(k)); size_t l = lb(i, k), u = ub(i, k); VCHECK(size_t(n) == u - l, "result", "[%s] erase(%lld) returns %zu, expected %zu", nm, (long long)k, size_t(n), u - l); mm.erase(mm.begin() + std::ptrdiff_t(l), mm.begin() + std::ptrdiff_t(u)); break; }
        case 21: case 22: if (!mm.empty()) { size_t p = r.chance(70) ? r.below(mm.size()) : r.chance(50) ? 0 : mm.size() - 1; It it = at(i, p); It nx = r.chance(50) ? x.erase(it) : x.erase(typename C::const_iterator(it)); mm.erase(mm.begin() + std::ptrdiff_t(p)); is_at(i, nx, p, "erase(iterator)"); } break;
        case 23: { size_t a = r.below(mm.size() + 1), b = r.chance(20) ? mm.size() : a + r.below(std::min<size_t>(mm.size() - a, r.chance(30) ? 400 : 10) + 1); if (r.chance(3)) a = 0, b = mm.size();
            It nx = x.erase(typename C::const_iterator(at(i, a)), typename C::const_iterator(at(i, b))); mm.erase(mm.begin() + std::ptrdiff_t(a), mm.begin() + std::ptrdiff_t(b)); is_at(i, nx, a, "erase(range)"); full(i, "erase(range)"); break; }
        case 24: { int64_t mod = int64_t(r.range(2, 9)), rem = int64_t(r.below(4)); if (!r.chance(20)) break; auto p = [&](const auto& e) { return (kid(e) + vid(e)) % mod == rem; };
            gtl::erase_if(x, p); size_t before = mm.size(); mm.erase(std::remove_if(mm.begin(), mm.end(), [&](const E& e) { return (e.k + e.v) % mod == rem; }), mm.end()); cnt("erase_if_erased") += before - mm.size(); full(i, "erase_if"); break; }
        case 25: case 26: { // node handles
            bool h = has(i, k); size_t l = lb(i, k), u = ub(i, k); typename C::node_type n; int64_t vv = 0;
            if (h && r.chance(50)) { size_t p = r.range(l, u - 1); vv = mm[p].v; k = mm[p].k; n = x.extract(at(i, p)); mm.erase(mm.begin() + std::ptrdiff_t(p)); }
            else { auto it = x.find(make_of<Key>(k)); size_t p = h ? ix(i, it) : 0; n = x.extract(make_of<Key>(k)); if (h) { vv = mm[p].v; k = mm[p].k; mm.erase(mm.begin() + std::ptrdiff_t(p)); } }
            VCHECK(!n.empty() == h && bool(n) == h, "result", "[%s] extract gives an empty node: %d", nm, n.empty());
            full(i, "extract");
            if (!h && r.chance(30)) { is_at(j, c[j]->insert(typename C::const_iterator(at(j, r.below(m[j].size() + 1))), std::move(n)), m[j].size(), "insert(hint, empty node)"); break; }
            if (!h) { C& y = *c[j]; if constexpr (S::multi) is_at(j, y.insert(std::move(n)), m[j].size(), "insert(empty node)"); else { auto q = y.insert(std::move(n)); VCHECK(!q.inserted && q.node.empty(), "result", "[%s] inserting an empty node", nm); is_at(j, q.position, m[j].size(), "insert(empty node)"); } break; }
            if constexpr (S::is_map) { VCHECK(id_of(n.key()) == k && id_of(n.mapped()) == vv, "content", "[%s] the extracted node holds another element", nm); if (r.chance(30)) { vv = nv(); n.mapped() = make_of<Map>(vv); } }
            else { VCHECK(id_of(n.value()) == k, "content", "[%s] the extracted node holds another element", nm); }
            if (r.chance(20)) break; // drop it
            C& y = *c[j];
            if (r.chance(50)) { if constexpr (S::multi) { auto it = y.insert(std::move(n)); is_at(j, it, model_insert(j, k, vv), "insert(node)", k); VCHECK(n.empty(), "result", "[%s] the node is not consumed", nm); }
                else { bool hj = has(j, k); auto q = y.insert(std::move(n)); VCHECK(q.inserted == !hj && q.node.empty() == !hj, "result", "[%s] insert(node): inserted %d", nm, q.inserted); is_at(j, q.position, hj ? lb(j, k) : model_insert(j, k, vv), "insert(node)", k);
                       if (hj) { if constexpr (S::is_map) VCHECK(id_of(q.node.key()) == k && id_of(q.node.mapped()) == vv, "content", "[%s] the rejected node changed", nm); else VCHECK(id_of(q.node.value()) == k, "content", "[%s] the rejected node changed", nm); } } }
            else { size_t hh = r.below(m[j].size() + 1); auto it = y.insert(typename C::const_iterator(at(j, hh)), std::move(n)); check_hint(j, it, k, vv, hh, "insert(hint, node)"); }
            full(j, "insert(node)"); break; }
        case 27: { // merge
            if (!r.chance(30)) break; C& y = *c[j]; if (r.chance(50)) x.merge(y); else x.merge(std::move(y));
            std::vector<E> rest; for (auto& e : m[j]) if (S::multi || !has(i, e.k)) model_insert(i, e.k, e.v); else rest.push_back(e); m[j] = rest; full(i, "merge"); full(j, "merge (source)"); break; }
        case 28: if (r.chance(8) || mm.size() > cap_n * 3) { x.clear(); mm.clear(); full(i, "clear"); } break;
        case 29: { if (!r.chance(40)) break; using std::swap; const void* a = mm.empty() ? nullptr : &*x.begin(); auto it = x.begin(); if (r.chance(50)) x.swap(*c[j]); else swap(x, *c[j]); std::swap(mm, m[j]); std::swap(cs[i], cs[j]);
            if (a) { VCHECK(&*c[j]->begin() == a, "stability", "[%s] swap moves elements", nm); size_t n = 0; for (; it != c[j]->end(); ++it) ++n; VCHECK(n == m[j].size(), "stability", "[%s] an iterator does not survive swap", nm); } full(i, "swap"); full(j, "swap"); break; }
        case 30: if constexpr (copyable) { if (!r.chance(40)) break; C y(*c[j]); VCHECK(y == *c[j], "compare", "[%s] a copy differs", nm); VCHECK(y.size() == m[j].size(), "size", "[%s] a copy has another size", nm); *c[i] = y; copy_from(i, j); full(i, "copy"); if (r.chance(50)) { y.clear(); full(j, "clear of a copy"); full(i, "clear of a copy"); } } break;
        case 31: if constexpr (copyable) { if (!r.chance(40)) break; *c[i] = std::as_const(*c[j]); copy_from(i, j); full(i, "copy assignment"); full(j, "copy assignment (source)"); } break;
        case 32: { if (!r.chance(40)) break; const void* a = m[j].empty() ? nullptr : &*c[j]->begin(); *c[i] = std::move(*c[j]); copy_from(i, j); m[j].clear(); full(i, "move assignment"); c[j] = std::make_unique<C>(S::make(cs[j])); if (a && !S::talloc) VCHECK(&*c[i]->begin() == a, "stability", "[%s] move assignment moves elements", nm); break; }
        case 33: { if (!r.chance(40)) break; const void* a = m[j].empty() ? nullptr : &*c[j]->begin(); auto it = c[j]->begin(); auto y = std::make_unique<C>(std::move(*c[j])); copy_from(i, j); m[j].clear(); c[i] = std::move(y); if (a) { VCHECK(&*c[i]->begin() == a, "stability", "[%s] move construction moves elements", nm); size_t n = 0; for (; it != c[i]->end(); ++it) ++n; VCHECK(n == m[i].size(), "stability", "[%s] an iterator does not survive move construction", nm); } full(i, "move construction");
            VCHECK(c[j]->size() == 0 && c[j]->begin() == c[j]->end(), "moved", "[%s] the moved-from container is not empty", nm); if (r.chance(50)) full(j, "move construction (source)"); break; }
        case 34: if constexpr (copyable) { C& y = x; if (r.chance(30)) { x = std::move(y); full(i, "self move assignment"); } else if (r.chance(50)) { x = y; full(i, "self assignment"); } else { x.swap(y); full(i, "self swap"); } } break;
        case 35: if constexpr (copyable) { // construction from a range
            if (!r.chance(30)) break; std::vector<VT> es; std::vector<E> ms; size_t n = r.below(60); for (size_t q = 0; q < n; ++q) { int64_t kk = rkey(), vv = nv(); es.push_back(mk(kk, vv)); ms.push_back({ kk, vv }); }
            if constexpr (S::kind == B_STATE) c[i] = std::make_unique<C>(es.begin(), es.end(), typename C::key_compare{ cs[i] }); else c[i] = std::make_unique<C>(es.begin(), es.end());
            mm.clear(); for (auto& e : ms) if (S::multi || !has(i, e.k)) model_insert(i, e.k, e.v); full(i, "range construction"); } break;
        case 36: case 37: if constexpr (copyable) { // comparisons
            auto cmpv = [&](const E& a, const E& b) { int q = natural<Key>(a.k, b.k); if (q) return q; if constexpr (S::is_map) return natural<Map>(a.v, b.v); else return 0; };
            int o = 0; for (size_t q = 0; !o; ++q) { bool ea = q >= mm.size(), eb = q >= m[j].size(); if (ea && eb) break; if (ea) o = -1; else if (eb) o = 1; else o = cmpv(mm[q], m[j][q]); }
            C& y = *c[j]; VCHECK((x == y) == (o == 0) && (x != y) == (o != 0), "compare", "[%s] == or != is wrong", nm);
            VCHECK((x < y) == (o < 0) && (x > y) == (o > 0) && (x <= y) == (o <= 0) && (x >= y) == (o >= 0), "compare", "[%s] an ordering comparison is wrong", nm); if (o == 0) cnt("equal_comparisons")++; } break;
        case 38: if constexpr (copyable) { if (!r.chance(30)) break; *c[i] = *c[j]; copy_from(i, j); if (!m[i].empty()) { size_t p = r.below(m[i].size()); c[i]->erase(at(i, p)); m[i].erase(m[i].begin() + std::ptrdiff_t(p)); } } break; // nearly equal
        default: // bulk patterns
            if (r.chance(25)) {
                size_t n = r.pick<size_t>({ 5, 30, 130 }); int64_t k0 = rkey(); unsigned sh = unsigned(r.below(4));
                for (size_t q = 0; q < n && mm.size() <= cap_n; ++q) {
                    int64_t kk = sh == 0 ? (k0 + int64_t(q)) % int64_t(U) : sh == 1 ? (k0 + int64_t(n - q)) % int64_t(U) : sh == 2 ? rkey() : (k0 + int64_t(q & 1 ? q : n - q)) % int64_t(U); int64_t vv = nv();
                    if (S::multi || !has(i, kk)) model_insert(i, kk, vv);
                    if (r.chance(60)) x.insert(mk(kk, vv)); else x.insert(x.end(), mk(kk, vv)); 
                    // with the end hint an equivalent element still goes last
                }
                full(i, "bulk insertion");
            } else if (r.chance(30)) { size_t n = r.pick<size_t>({ 5, 30, 100 }); bool front = r.chance(50); size_t st = r.below(3);
                for (size_t q = 0; q < n && !mm.empty(); ++q) { size_t p = st == 0 ? (front ? 0 : mm.size() - 1) : st == 1 ? mm.size() / 2 : r.below(mm.size()); x.erase(at(i, p)); mm.erase(mm.begin() + std::ptrdiff_t(p)); }
                full(i, "bulk erasure"); }
            break;
        }
        if (r.chance(12)) full(i, "an operation");
        VCHECK(c[i]->size() == m[i].size(), "size", "[%s] size %zu, expected %zu (op %u)", nm, c[i]->size(), m[i].size(), op);
    }
};
template<class S> void bmodel(Rng& r, const char* nm) {
    {
        size_t U = r.pick<size_t>({ 3, 12, 60, 300, 2000 }); if (sizeof(typename S::Key) == 1) U = std::min<size_t>(U, 250);
        BWorld<S> w(r, nm, U, r.pick<size_t>({ 40, 150, 600 }));
        size_t n = r.pick<size_t>({ 30, 100, 250 });
        oplog().add(nm, U, n);
        for (size_t s = 0; s < n; ++s) w.step();
        for (int i = 0; i < 3; ++i) w.full(i, "everything");
    }
    check_no_leaks(nm);
}
} // namespace vf
