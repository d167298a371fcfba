// P12, P18, P19, P21: dumps, caches and structures of arrays at sizes far beyond the random histories.
#include "common.hpp"
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/soa.hpp>
#include <unistd.h>
#include <numeric>
using namespace vf;

struct MemOut { std::string b; bool saveBinary(const void* p, size_t n) { b.append(static_cast<const char*>(p), n); return true; } };
struct MemIn { const std::string& b; size_t pos = 0; bool loadBinary(void* p, size_t n) { VCHECK(pos + n <= b.size(), "archive", "load reads %zu bytes at %zu of an archive of %zu", n, pos, b.size()); memcpy(p, b.data() + pos, n); pos += n; return true; } };
struct Scratch { std::string d; Scratch() { char t[] = "/tmp/vf-dump-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(3); } d = t; } ~Scratch() { unlink((d + "/a").c_str()); rmdir(d.c_str()); } std::string file() const { return d + "/a"; } };

template<class C, bool MAP> void dump_case(Rng& r, const char* nm) {
    using K = typename C::key_type; size_t T = r.pick<size_t>({ 5000, 40000, 70000, 150000, 400000 }), U = T + T / 2; uint64_t mul = r.pick<uint64_t>({ 1, 3, 64 });
    std::vector<uint32_t> m(U, 0); size_t n = 0; uint32_t nv = 1; C c; auto key = [&](size_t i) { return K(uint64_t(i) * mul); };
    auto put = [&](C& x, size_t i) { bool got; if constexpr (MAP) { got = x.insert_or_assign(key(i), typename C::mapped_type(nv)).second; } else got = x.insert(key(i)).second; VCHECK(got == !m[i], "result", "[%s] insert returns %d", nm, got); n += !m[i]; m[i] = MAP ? nv : 1; ++nv; };
    auto del = [&](C& x, size_t i) { size_t g = x.erase(key(i)); VCHECK(g == size_t(m[i] != 0), "result", "[%s] erase returns %zu", nm, g); n -= m[i] != 0; m[i] = 0; };
    auto check = [&](C& x, const char* w) { oplog().add(w, n, T); VCHECK(x.size() == n, "size", "[%s] %s: size %zu, expected %zu", nm, w, x.size(), n); for (size_t i = 0; i < U; ++i) { auto it = x.find(key(i)); VCHECK((it != x.end()) == (m[i] != 0), "content", "[%s] %s: key %zu of %zu is %s", nm, w, i, U, m[i] ? "lost" : "found"); if constexpr (MAP) { if (m[i]) VCHECK(it->second == typename C::mapped_type(m[i]), "content", "[%s] %s: value of key %zu", nm, w, i); } }
        size_t k = 0; for (auto& e : x) { (void)e; ++k; } VCHECK(k == n, "content", "[%s] %s: %zu elements visited of %zu", nm, w, k, n); cnt("huge_lookups") += U; stat_max("max_size_seen", n); };
    for (size_t i = 0; i < T; ++i) put(c, r.below(U)); if (r.chance(60)) for (size_t i = 0; i < T / 2; ++i) del(c, r.below(U));
    C d; if (r.chance(50)) { for (size_t i = 0; i < 1000; ++i) { if constexpr (MAP) d.emplace(key(i * 7), typename C::mapped_type(9)); else d.insert(key(i * 7)); } }
    if (r.chance(50)) { Scratch s; oplog().add("file", n); { gtl::BinaryOutputArchive o(s.file().c_str()); VCHECK(c.phmap_dump(o), "dump", "[%s] dump to a file fails", nm); } gtl::BinaryInputArchive in(s.file().c_str()); VCHECK(d.phmap_load(in), "load", "[%s] load from a file fails", nm); cnt("files")++; }
    else { oplog().add("memory", n); MemOut o; VCHECK(c.phmap_dump(o), "dump", "[%s] dump fails", nm); MemIn in{ o.b }; VCHECK(d.phmap_load(in), "load", "[%s] load fails", nm); VCHECK(in.pos == o.b.size(), "archive", "[%s] %zu bytes of the archive are left", nm, o.b.size() - in.pos); stat_max("max_archive_bytes", o.b.size()); }
    check(c, "dumped"); check(d, "loaded"); VCHECK(c == d, "equality", "[%s] the loaded container differs", nm);
    for (size_t i = 0; i < T / 2; ++i) { size_t q = r.below(U); if (r.chance(50)) put(d, q); else del(d, q); } check(d, "used after loading");
}

// a cache with thousands of entries against a list and an index
template<class C> void lru_case(Rng& r, const char* nm) {
    size_t max = r.pick<size_t>({ 300, 4096, 65536, 70000 }), U = max + r.below(max), n = max * 4; C c(max); using It = std::list<std::pair<uint32_t, uint32_t>>::iterator; std::list<std::pair<uint32_t, uint32_t>> l; std::vector<It> at(U, l.end()); uint32_t nv = 1; oplog().add("lru", max, U);
    for (size_t i = 0; i < n; ++i) { uint32_t k = uint32_t(i < max && r.chance(90) ? i : r.below(U)); bool in = at[k] != l.end();
        if (i < max || r.chance(50)) { c.insert(k, nv); if (in) { at[k]->second = nv; l.splice(l.begin(), l, at[k]); } else { l.emplace_front(k, nv); at[k] = l.begin(); if (l.size() > max) { at[l.back().first] = l.end(); l.pop_back(); cnt("evictions")++; } } ++nv; }
        else { auto g = c.get(k); VCHECK(g.has_value() == in && (!g || *g == at[k]->second), "get", "[%s] get gives %s at operation %zu (capacity %zu)", nm, g ? "a value" : "nothing", i, max); if (in) l.splice(l.begin(), l, at[k]); }
        VCHECK(c.size() == l.size(), "size", "[%s] size %zu, expected %zu", nm, c.size(), l.size()); }
    for (uint32_t k = 0; k < U; ++k) VCHECK(c.exists(k) == (at[k] != l.end()), "content", "[%s] key %u of %zu", nm, k, U); cnt("huge_lookups") += n; stat_max("max_size_seen", l.size());
}
static uint64_t g_calls; static uint64_t mf(uint64_t a, uint32_t b) { ++g_calls; return mix64(a) ^ b; }
template<class M> void memo_case(Rng& r, const char* nm, size_t max) {
    auto f = &mf; std::optional<M> mm; if (max) { if constexpr (std::is_constructible_v<M, decltype(f)&, size_t>) mm.emplace(f, max); } else mm.emplace(f); M& m = *mm; size_t U = r.pick<size_t>({ 3000, 70000, 150000 }); if (max) U = max / 2 + r.below(max); g_calls = 0; std::vector<char> seen(U, 0); size_t distinct = 0, n = U * 2; oplog().add("memo", U, max);
    for (size_t i = 0; i < n; ++i) { size_t k = i < U ? i : r.below(U); uint64_t a = k * 977; uint32_t b = uint32_t(k % 7); uint64_t before = g_calls; VCHECK(m(a, b) == (mix64(a) ^ b), "value", "[%s] wrong result at call %zu", nm, i); distinct += !seen[k];
        if (!max) VCHECK(g_calls - before == (seen[k] ? 0u : 1u), "calls", "[%s] %llu calls at call %zu", nm, (unsigned long long)(g_calls - before), i); seen[k] = 1; if (max) VCHECK(m.size() <= max, "capacity", "[%s] %zu results cached, limit %zu", nm, m.size(), max); else VCHECK(m.size() == distinct, "size", "[%s] %zu results cached, expected %zu", nm, m.size(), distinct); VCHECK(m.contains(a, b) == std::optional<uint64_t>(mix64(a) ^ b), "contains", "[%s] a result just returned is not cached", nm); }
    cnt("huge_lookups") += n; stat_max("max_size_seen", m.size());
}
void soa_case(Rng& r) {
    size_t n = r.pick<size_t>({ 1000, 65535, 65536, 65537, 200000 }); using Row = std::tuple<uint32_t, int64_t, std::string>; gtl::soa<uint32_t, int64_t, std::string> s; std::vector<Row> m; uint32_t mod = r.pick<uint32_t>({ 2, 100, 70000, 1000000 });
    auto check = [&](const char* w) { oplog().add(w, n, mod); VCHECK(s.size() == m.size(), "size", "soa %s: %zu rows, expected %zu", w, s.size(), m.size()); for (size_t i = 0; i < m.size(); ++i) VCHECK(Row(s[i]) == m[i], "row", "soa %s: row %zu of %zu", w, i, m.size()); cnt("rows_checked") += m.size(); stat_max("max_rows_seen", m.size()); };
    for (size_t i = 0; i < n; ++i) { Row x(uint32_t(r.below(mod)), int64_t(i), std::to_string(r.below(1000))); s.insert(std::get<0>(x), std::get<1>(x), std::get<2>(x)); m.push_back(x); } check("filled");
    for (int k = 0; k < 4; ++k) switch (r.below(5)) {
        case 0: s.sort_by_field<0>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); }); check("sorted by 0"); break;
        case 1: s.sort_by_field<1>([](auto a, auto b) { return a > b; }); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<1>(a) > std::get<1>(b); }); check("sorted by 1"); break;
        case 2: s.sort_by_field<2>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<2>(a) < std::get<2>(b); }); check("sorted by 2"); break;
        case 3: { size_t z = r.below(m.size() + m.size() / 3 + 2); s.resize(z); m.resize(z); check("resized"); break; }
        default: { auto t = s; t.clear(); auto u = s; s = std::move(u); check("copied"); break; } }
}
int main(int argc, char** argv) {
    return run_main(argc, argv, {
        { "dump", [](Rng& r, uint64_t i) { switch (i % 4) { case 0: dump_case<gtl::flat_hash_map<uint64_t, uint64_t>, true>(r, "flat_hash_map"); break; case 1: dump_case<gtl::flat_hash_set<uint32_t>, false>(r, "flat_hash_set"); break; case 2: dump_case<gtl::parallel_flat_hash_map<uint32_t, uint64_t>, true>(r, "parallel_flat_hash_map"); break; default: dump_case<gtl::parallel_flat_hash_set<uint64_t>, false>(r, "parallel_flat_hash_set"); break; } } },
        { "lru", [](Rng& r, uint64_t i) { if (i % 2) lru_case<gtl::lru_cache<uint32_t, uint32_t>>(r, "lru_cache"); else lru_case<gtl::lru_cache_impl<uint32_t, uint32_t, 0, gtl::Hash<uint32_t>, std::equal_to<uint32_t>, std::mutex>>(r, "lru_cache_impl<0,mutex>"); } },
        { "memo", [](Rng& r, uint64_t i) { using F = decltype(&mf); switch (i % 4) { case 0: memo_case<gtl::memoize<F>>(r, "memoize", 0); break; case 1: memo_case<gtl::mt_memoize<F, false>>(r, "mt_memoize<non-recursive>", 0); break; case 2: memo_case<gtl::mt_memoize_lru<F>>(r, "mt_memoize_lru", 65536); break; default: memo_case<gtl::memoize_lru<F>>(r, "memoize_lru", 20000); break; } } },
        { "soa", [](Rng& r, uint64_t) { soa_case(r); } },
    });
}
