// P01, P11, P13, P15, P17: the same judgements at sizes far beyond the random histories (up to some 10^6 elements).
#include "common.hpp"
#include <gtl/phmap.hpp>
#include <gtl/btree.hpp>
#include <gtl/vector.hpp>
#include <gtl/bit_vector.hpp>
#include <bitset>
#include <numeric>
using namespace vf;

template<class C> struct kind { static constexpr bool map = requires { typename C::mapped_type; }; };
template<class C> void assoc_case(Rng& r, const char* nm, bool ordered) {
    constexpr bool MAP = kind<C>::map;
    using K = typename C::key_type;
    size_t T = r.pick<size_t>({ 3000, 20000, 60000, 70000, 140000, 300000 }), U = T + T / 2;
    uint64_t mul = r.pick<uint64_t>({ 1, 1, 3, 16, 64, 1000, 4096 });
    auto key = [&](size_t i) { return K(uint64_t(i) * mul); };
    auto un = [&](const K& k) { return size_t(uint64_t(k) / mul); };
    std::vector<uint32_t> m(U, 0); size_t n = 0; uint32_t nv = 1;
    C c;
    if (r.chance(30)) { if constexpr (requires { c.reserve(T); }) c.reserve(T); }
    auto ins = [&](size_t i) {
        bool want = !m[i], got;
        if constexpr (MAP) { auto x = c.emplace(key(i), nv); got = x.second; if (want) m[i] = nv; VCHECK(x.first->first == key(i) && x.first->second == m[i], "result", "%s: emplace returns another element at size %zu", nm, n); ++nv; }
        else { auto x = c.insert(key(i)); got = x.second; m[i] = 1; VCHECK(*x.first == key(i), "result", "%s: insert returns another element at size %zu", nm, n); }
        VCHECK(got == want, "result", "%s: insert of %zu returns %d at size %zu", nm, i, got, n); n += want; };
    auto era = [&](size_t i) { size_t got = c.erase(key(i)); VCHECK(got == (m[i] != 0), "result", "%s: erase returns %zu at size %zu", nm, got, n); n -= m[i] != 0; m[i] = 0; };
    auto check = [&](const C& x, const char* w) {
        oplog().add(w, n, T);
        VCHECK(x.size() == n, "size", "%s %s: size %zu, expected %zu", nm, w, x.size(), n);
        for (size_t i = 0; i < U; ++i) { auto it = x.find(key(i)); VCHECK((it != x.end()) == (m[i] != 0), "lookup", "%s %s: key %zu of %zu %s (size %zu)", nm, w, i, U, m[i] ? "lost" : "found", n); if constexpr (MAP) { if (m[i]) VCHECK(it->second == m[i], "content", "%s %s: value of key %zu", nm, w, i); } }
        std::vector<char> seen(U, 0); size_t k = 0; bool first = true; K prev{};
        for (auto& e : x) { K kk; if constexpr (MAP) kk = e.first; else kk = e; size_t i = un(kk); VCHECK(i < U && m[i] && !seen[i], "iteration", "%s %s: key %zu visited wrongly (size %zu)", nm, w, i, n); seen[i] = 1; ++k; if (ordered) VCHECK(first || prev < kk, "order", "%s %s", nm, w); prev = kk; first = false; }
        VCHECK(k == n, "iteration", "%s %s: %zu elements visited, expected %zu", nm, w, k, n);
        stat_max("max_size_seen", n); if constexpr (requires { x.capacity(); }) stat_max("max_capacity_seen", x.capacity());
        cnt("huge_lookups") += U; cnt("huge_visits") += k; };
    size_t ord = r.below(3);
    for (size_t i = 0; i < T; ++i) ins(ord == 0 ? i : ord == 1 ? T - 1 - i : r.below(U));
    check(c, "grown");
    if (r.chance(50)) { C d(c); check(d, "copied"); VCHECK(d == c, "equality", "%s: a copy differs at size %zu", nm, n); C e; e.swap(d); check(e, "swapped"); VCHECK(d.empty() && d.begin() == d.end(), "size", "%s: swap", nm); C g(std::move(e)); check(g, "moved"); g = c; check(g, "assigned"); if (n) { g.erase(g.begin()); VCHECK(!(g == c), "equality", "%s: unequal containers compare equal", nm); } }
    unsigned how = unsigned(r.below(4));
    if (how == 0) { size_t q = r.below(n + 1); auto it = c.begin(); while (q--) { size_t i; if constexpr (MAP) i = un(it->first); else i = un(*it); if constexpr (std::is_void_v<decltype(c.erase(c.begin()))>) c.erase(it++); else it = c.erase(it); m[i] = 0; --n; } }
    else if (how == 1) { for (size_t i = 0; i < U; ++i) if (m[i] && r.chance(85)) era(i); }
    else if (how == 2) { for (size_t i = 0; i < T; ++i) { era(r.below(U)); ins(r.below(U)); } }
    else { size_t a = r.below(U), b = a + r.below(U - a + 1); for (size_t i = a; i < b; ++i) era(i); }
    check(c, "erased");
    if constexpr (requires { c.rehash(0); }) { if (r.chance(50)) { c.rehash(0); check(c, "rehashed"); } }
    for (size_t i = 0; i < T / 2; ++i) ins(r.below(U));
    check(c, "refilled");
    if (ordered) { if constexpr (requires { c.lower_bound(key(0)); }) { size_t i = r.below(U), j = i; auto it = c.lower_bound(key(i)); while (j < U && !m[j]) ++j; K kk{}; if (it != c.end()) { if constexpr (MAP) kk = it->first; else kk = *it; } VCHECK((it == c.end()) == (j == U) && (j == U || kk == key(j)), "bound", "%s: lower_bound", nm); } }
    C o; size_t split = r.below(U); for (size_t i = 0; i < split; ++i) { if constexpr (MAP) o.emplace(key(i), 7u); else o.insert(key(i)); }
    o.merge(c); size_t left = 0; for (size_t i = 0; i < split; ++i) left += m[i] != 0;
    VCHECK(c.size() == left && o.size() == n + split - left, "merge", "%s: merge leaves %zu and %zu elements, expected %zu and %zu", nm, c.size(), o.size(), left, n + split - left);
    for (size_t i = 0; i < U; ++i) VCHECK(o.contains(key(i)) == (i < split || m[i]) && c.contains(key(i)) == (i < split && m[i]), "merge", "%s: key %zu after merge", nm, i);
    c.clear(); VCHECK(c.empty() && c.begin() == c.end() && !c.contains(key(split)), "size", "%s: clear", nm);
}
void vec_case(Rng& r) {
    size_t n = r.pick<size_t>({ 1000, 65535, 65536, 65537, 300000, 1000000 });
    gtl::vector<uint32_t> v; std::vector<uint32_t> m;
    if (r.chance(30)) v.reserve(n);
    for (size_t i = 0; i < n; ++i) { uint32_t x = uint32_t(r.next()); v.push_back(x); m.push_back(x); }
    auto check = [&](const char* w) { oplog().add(w, v.size()); VCHECK(v.size() == m.size() && v.capacity() >= v.size() && std::equal(v.begin(), v.end(), m.begin()), "content", "vector %s at size %zu (expected %zu)", w, v.size(), m.size()); cnt("huge_visits") += m.size(); stat_max("max_size_seen", m.size()); };
    check("push_back");
    for (int k = 0; k < 8; ++k) {
        size_t a = r.below(v.size() + 1), b = a + r.below(v.size() - a + 1);
        switch (r.below(6)) {
        case 0: v.erase(v.begin() + a, v.begin() + b); m.erase(m.begin() + a, m.begin() + b); check("erase"); break;
        case 1: { std::vector<uint32_t> x(r.below(70000)); std::iota(x.begin(), x.end(), 5u); v.insert(v.begin() + a, x.begin(), x.end()); m.insert(m.begin() + a, x.begin(), x.end()); check("insert"); break; }
        case 2: { size_t q = r.below(140000); v.insert(v.begin() + a, q, 9u); m.insert(m.begin() + a, q, 9u); check("insert n"); break; }
        case 3: { size_t q = r.below(2 * n); v.resize(q); m.resize(q); check("resize"); break; }
        case 4: { gtl::vector<uint32_t> w(v); VCHECK(w == v, "equality", "vector copy"); w.swap(v); check("copy"); v.shrink_to_fit(); check("shrink"); break; }
        default: { uint32_t x = a < v.size() ? v[a] : 1; if (a < v.size()) v.insert(v.begin() + b, v[a]); else v.insert(v.begin() + b, x); m.insert(m.begin() + b, x); check("insert own"); break; } } }
}
void bits_case(Rng& r) {
    size_t n = r.pick<size_t>({ 1000, 4095, 4096, 65535, 65536, 65537, 200001, 1000000 });
    gtl::bit_vector v(n, false); std::vector<char> m(n, 0); unsigned pc = unsigned(r.pick<int>({ 1, 1, 10, 50, 99 }));
    if (pc == 1) { for (int k = 0; k < 20; ++k) { size_t i = r.below(n); v.set(i); m[i] = 1; } }
    else for (size_t i = 0; i < n; ++i) if (r.chance(pc)) { v.set(i); m[i] = 1; }
    auto check = [&](const char* w) {
        oplog().add(w, n, pc); VCHECK(v.size() == m.size(), "size", "bit_vector %s: %zu, expected %zu", w, v.size(), m.size());
        size_t c = 0; for (size_t i = 0; i < m.size(); ++i) { VCHECK(v[i] == bool(m[i]), "content", "bit_vector %s: bit %zu of %zu", w, i, m.size()); c += m[i] != 0; }
        VCHECK(v.count() == c && v.any() == (c > 0) && v.every() == (c == m.size()) && v.none() == (c == 0), "count", "bit_vector %s: count %zu, expected %zu", w, v.count(), c);
        size_t i = 0, p = v.find_first(); for (;;) { while (i < m.size() && !m[i]) ++i; if (i == m.size()) break; VCHECK(p == i, "find", "bit_vector %s: find gives %zu, expected %zu of %zu", w, p, i, m.size()); ++i; p = v.find_next(i); }
        VCHECK(p >= m.size(), "find", "bit_vector %s: find after the last bit gives %zu of %zu", w, p, m.size());
        cnt("huge_visits") += m.size(); stat_max("max_bits_seen", m.size()); };
    check("filled");
    for (int k = 0; k < 6; ++k) {
        size_t a = r.below(n + 1), b = a + r.below(n - a + 1);
        switch (r.below(7)) {
        case 0: v.view(a, b).set(); std::fill(m.begin() + a, m.begin() + b, 1); check("view set"); break;
        case 1: v.view(a, b).flip(); for (size_t i = a; i < b; ++i) m[i] = !m[i]; check("view flip"); break;
        case 2: v.view(a, b).reset(); std::fill(m.begin() + a, m.begin() + b, 0); check("view reset"); break;
        case 3: { size_t q = r.pick<size_t>({ 1, 63, 64, 65, 1000, std::min<size_t>(a, 20000) }); v >>= q; std::vector<char> x(n, 0); for (size_t i = q; i < n; ++i) x[i] = m[i - q]; m = x; check("shift up"); break; }
        case 4: { size_t q = r.pick<size_t>({ 1, 63, 64, 65, 1000, std::min<size_t>(a, 20000) }); v <<= q; std::vector<char> x(n, 0); for (size_t i = q; i < n; ++i) x[i - q] = m[i]; m = x; check("shift down"); break; }
        case 5: { gtl::bit_vector w(v); VCHECK(w == v, "equality", "copy"); w.flip(); w.flip(); VCHECK(w == v, "equality", "flipped twice"); if (a < n) { w.flip(a); VCHECK(w != v, "equality", "bit %zu of %zu differs", a, n); w ^= v; VCHECK(w.count() == 1 && w.find_first() == a, "find", "the one bit %zu of %zu", a, n); } check("copy"); break; }
        default: { size_t c = 0; for (size_t i = a; i < b; ++i) c += m[i] != 0; auto w = v.view(a, b); VCHECK(w.count() == c && w.any() == (c > 0) && w.every() == (c == b - a), "count", "view [%zu,%zu) of %zu", a, b, n); size_t i = a; while (i < b && !m[i]) ++i; size_t p = w.find_first(); VCHECK(i == b ? p >= b - a : p == i - a, "find", "view [%zu,%zu) of %zu", a, b, n); break; } } }
}
int main(int argc, char** argv) {
    return run_main(argc, argv, {
        { "hash", [](Rng& r, uint64_t i) { switch (i % 4) {
            case 0: assoc_case<gtl::flat_hash_set<int64_t>>(r, "flat_hash_set<int64>", false); break; case 1: assoc_case<gtl::flat_hash_map<uint32_t, uint32_t>>(r, "flat_hash_map<uint32>", false); break;
            case 2: assoc_case<gtl::node_hash_map<int64_t, uint32_t>>(r, "node_hash_map<int64>", false); break; default: assoc_case<gtl::flat_hash_map<uint64_t, uint32_t, std::hash<uint64_t>>>(r, "flat_hash_map<uint64,std::hash>", false); break; } } },
        { "par", [](Rng& r, uint64_t i) { switch (i % 3) {
            case 0: assoc_case<gtl::parallel_flat_hash_map<int64_t, uint32_t>>(r, "parallel_flat_hash_map", false); break; case 1: assoc_case<gtl::parallel_node_hash_set<int64_t>>(r, "parallel_node_hash_set", false); break;
            default: assoc_case<gtl::parallel_flat_hash_set<uint32_t, std::hash<uint32_t>, std::equal_to<uint32_t>, std::allocator<uint32_t>, 2, std::mutex>>(r, "parallel_flat_hash_set<2>", false); break; } } },
        { "btree", [](Rng& r, uint64_t i) { switch (i % 3) {
            case 0: assoc_case<gtl::btree_set<int64_t>>(r, "btree_set", true); break; case 1: assoc_case<gtl::btree_map<uint32_t, uint32_t>>(r, "btree_map", true); break; default: assoc_case<gtl::btree_set<uint32_t>>(r, "btree_set<uint32>", true); break; } } },
        { "vector", [](Rng& r, uint64_t) { vec_case(r); } },
        { "bits", [](Rng& r, uint64_t) { bits_case(r); } },
    });
}
