// P13, P14: b-tree containers.
#include "btree_world.hpp"
using namespace vf;
#ifndef CFG
#define CFG 0
#endif
template<class T> using TA1 = TAlloc<T>;
#if CFG == 0
using S0 = BSpec<gtl::btree_set<int64_t>, false, false, B_LESS>;
using S1 = BSpec<gtl::btree_map<int64_t, Obj, Cmp<int64_t>>, true, false, B_STATE>;
using S2 = BSpec<gtl::btree_set<Obj, Cmp<Obj>, TAlloc<Obj>>, false, false, B_STATE>;
using S3 = BSpec<gtl::btree_map<std::string, std::string>, true, false, B_LESS, true>;
static const char* N[] = { "btree_set<int64>", "btree_map<int64,Obj,state>", "btree_set<Obj,state,alloc>", "btree_map<string,string>" };
#elif CFG == 1
using S0 = BSpec<gtl::btree_multiset<Obj, Cmp<Obj>, TAlloc<Obj>>, false, true, B_STATE>;
using S1 = BSpec<gtl::btree_multimap<int64_t, Obj, Cmp<int64_t>>, true, true, B_STATE>;
using S2 = BSpec<gtl::btree_multimap<std::string, std::string, std::greater<std::string>>, true, true, B_GREATER, true>;
using S3 = BSpec<gtl::btree_multiset<uint8_t>, false, true, B_LESS>;
static const char* N[] = { "btree_multiset<Obj,state,alloc>", "btree_multimap<int64,Obj,state>", "btree_multimap<string,string,greater>", "btree_multiset<uint8>" };
#elif CFG == 2
using S0 = BSpec<gtl::btree_set<std::string, CmpTo<std::string>>, false, false, B_STATE>;
using S1 = BSpec<gtl::btree_map<Obj, MObj, Cmp<Obj, true>>, true, false, B_STATE, true>;
using S2 = BSpec<gtl::btree_set<Fat, Cmp<Fat>>, false, false, B_STATE>;
using S3 = BSpec<gtl::btree_map<int, Over, std::greater<int>, TAlloc<std::pair<const int, Over>>>, true, false, B_GREATER>;
static const char* N[] = { "btree_set<string,three-way>", "btree_map<Obj,move-only,transparent>", "btree_set<Fat>", "btree_map<int,Over,greater,alloc>" };
#elif CFG == 4
using S0 = BSpec<gtl::btree_map<Nsl, Nsl, Cmp<Nsl>, TAlloc<std::pair<const Nsl, Nsl>>>, true, false, B_STATE>;
using S1 = BSpec<gtl::btree_multimap<Nsl, int64_t, CmpTo<Nsl>>, true, true, B_STATE>;
using S2 = BSpec<gtl::btree_set<int, std::greater<int>, TAlloc<int>>, false, false, B_GREATER>;
using S3 = BSpec<gtl::btree_multiset<std::string>, false, true, B_LESS, true>;
static const char* N[] = { "btree_map<Nsl,Nsl,alloc>", "btree_multimap<Nsl,int64,three-way>", "btree_set<int,greater,alloc>", "btree_multiset<string>" };
#else
using S0 = BSpec<gtl::btree_multiset<Fat, CmpTo<Fat>, TAlloc<Fat>>, false, true, B_STATE>;
using S1 = BSpec<gtl::btree_multimap<Obj, int64_t, Cmp<Obj, true>, TAlloc<std::pair<const Obj, int64_t>>>, true, true, B_STATE, true>;
using S2 = BSpec<gtl::btree_multimap<int64_t, Fat, std::less<int64_t>>, true, true, B_LESS>;
using S3 = BSpec<gtl::btree_map<uint8_t, uint8_t>, true, false, B_LESS>;
static const char* N[] = { "btree_multiset<Fat,three-way,alloc>", "btree_multimap<Obj,int64,transparent,alloc>", "btree_multimap<int64,Fat>", "btree_map<uint8,uint8>" };
#endif

// ------------------------------------------------------------------ balance and memory (P14)
inline size_t live_bytes() { std::lock_guard<std::mutex> l(alloc_table().m); size_t n = 0; for (auto& x : alloc_table().live) n += x.second.bytes; return n; }
template<class K, bool MULTI> void balance_case(Rng& r, const char* nm) {
    using C = std::conditional_t<MULTI, gtl::btree_multiset<K, Cmp<K>, TAlloc<K>>, gtl::btree_set<K, Cmp<K>, TAlloc<K>>>;
    {
        C c(Cmp<K>{ CS{} }); std::vector<int64_t> ref; // sorted
        size_t n = r.pick<size_t>({ 300, 1000, 4000 });
        unsigned ins = unsigned(r.below(5)), del = unsigned(r.below(7));
        oplog().add(nm, n, ins * 10 + del);
        std::vector<int64_t> ks; for (size_t i = 0; i < n; ++i) ks.push_back(int64_t(i) * 2);
        if (ins == 1) std::reverse(ks.begin(), ks.end());
        if (ins == 2) for (size_t i = n; i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]);
        if (ins == 3) { std::vector<int64_t> z; for (size_t i = 0; i < n; ++i) z.push_back(ks[i & 1 ? n - 1 - i / 2 : i / 2]); ks = z; } // from both ends
        if (ins == 4) { size_t b = r.range(2, 70); std::vector<int64_t> z; for (size_t o = 0; o < b; ++o) for (size_t i = o; i < n; i += b) z.push_back(ks[i]); ks = z; }
        auto check = [&](const char* when) {
            size_t sz = c.size(); c.verify();
            VCHECK(sz == ref.size(), "size", "[%s] %s: size %zu, expected %zu", nm, when, sz, ref.size());
            size_t lg = 1; while ((size_t(1) << lg) < sz + 1) ++lg;
            uint64_t tot = 0, mx = 0; int q = 0;
            for (; q < 60 && sz; ++q) { int64_t k = r.chance(70) ? ref[r.below(sz)] : int64_t(r.below(2 * n + 2)); uint64_t b = g_cmp_calls; K kk(k); if (r.chance(50)) (void)c.find(kk); else (void)c.lower_bound(kk); uint64_t d = g_cmp_calls - b; tot += d; mx = std::max(mx, d); }
            stat_max("max_comparisons_per_log2n_x100", mx * 100 / lg);
            VCHECK(mx <= 4 * lg + 24, "balance", "[%s] %s: a lookup in %zu elements takes %llu comparisons", nm, when, sz, (unsigned long long)mx);
            size_t by = live_bytes(); if (sz >= 50) stat_max("max_bytes_per_element_x100", by * 100 / (sz * sizeof(K)));
            VCHECK(by <= 1024 + 4096 * (sizeof(K) > 64) + 12 * sz * sizeof(K), "memory", "[%s] %s: %zu elements of %zu bytes use %zu bytes", nm, when, sz, sizeof(K), by);
            cnt("balance_checks")++; cnt("lookups") += uint64_t(q);
        };
        for (size_t i = 0; i < ks.size(); ++i) { if (r.chance(ins >= 2 ? 100 : 70)) c.insert(K(ks[i])); else c.insert(c.end(), K(ks[i])); if (i + 1 == ks.size() / 2) { ref.assign(ks.begin(), ks.begin() + std::ptrdiff_t(i) + 1); std::sort(ref.begin(), ref.end()); check("half filled"); } }
        ref = ks; std::sort(ref.begin(), ref.end()); check("filled");
        size_t keep = r.pick<size_t>({ 0, 1, 20, n / 20, n / 4 });
        auto er = [&](size_t p) { if (r.chance(50)) { auto x = c.erase(K(ref[p])); VCHECK(size_t(x) == 1, "result", "[%s] erase returns %zu", nm, size_t(x)); } else { auto it = c.find(K(ref[p])); VCHECK(it != c.end(), "content", "[%s] key %lld is gone", nm, (long long)ref[p]); c.erase(it); } ref.erase(ref.begin() + std::ptrdiff_t(p)); };
        size_t step = r.range(2, 9), round = 0;
        while (ref.size() > keep) {
            if (del == 0) er(0); else if (del == 1) er(ref.size() - 1); else if (del == 2) er(r.below(ref.size()));
            else if (del == 3) { for (size_t p = ref.size(); p-- > 0 && ref.size() > keep;) if (p % step) er(p); if (ref.size() == 1) break; }
            else if (del == 4) { er(ref.size() / 2); }
            else if (del == 5) { size_t a = r.below(ref.size()), b = std::min(ref.size(), a + r.range(1, 80)); if (ref.size() - (b - a) < keep) b = a + (ref.size() - keep); auto f = c.lower_bound(K(ref[a])); auto l = b < ref.size() ? c.lower_bound(K(ref[b])) : c.end(); c.erase(f, l); ref.erase(ref.begin() + std::ptrdiff_t(a), ref.begin() + std::ptrdiff_t(b)); }
            else { er(ref.size() & 1 ? 0 : ref.size() - 1); }
            if (++round % 500 == 0 || del == 3) check("while erasing");
        }
        check("after erasing");
        if (r.chance(50)) { for (int q = 0; q < 400; ++q) { int64_t k = int64_t(r.below(2 * n)) | 1; auto lb = std::lower_bound(ref.begin(), ref.end(), k); if (lb == ref.end() || *lb != k) { c.insert(K(k)); ref.insert(lb, k); } else { c.erase(K(k)); ref.erase(lb); } } check("after more operations"); }
    }
    check_no_leaks(nm);
}
// ------------------------------------------------------------------ allocators (P14)
template<class A, class F> void alloc_hist(Rng& r, const char* nm, F mkc) {
    using C = decltype(mkc(0));
    {
        std::vector<C> v; std::vector<std::multiset<int64_t>> m; std::vector<int> id; v.reserve(6);
        for (int i = 0; i < 5; ++i) { v.push_back(mkc(i % 3)); m.emplace_back(); id.push_back(i % 3); }
        size_t n = r.range(20, 80); oplog().add(nm, n, r.s);
        for (size_t s = 0; s < n; ++s) {
            size_t i = r.below(5), j = r.below(5); int64_t k = int64_t(r.below(100));
            switch (r.below(9)) {
            case 0: case 1: case 2: for (int q = 0; q < int(r.below(30)); ++q) { int64_t kk = int64_t(r.below(200)); if (!m[i].count(kk)) { v[i].insert(Obj(kk)); m[i].insert(kk); } } break;
            case 3: v[i].erase(Obj(k)); m[i].erase(k); break;
            case 4: v[i] = v[j]; m[i] = m[j]; if (A::propagate_on_container_copy_assignment::value) id[i] = id[j]; cnt("copies")++; break;
            case 5: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; if constexpr (A::propagate_on_container_move_assignment::value != A::propagate_on_container_copy_assignment::value) { int g = v[i].get_allocator().id; if (g == id[j]) id[i] = g; } else if (A::propagate_on_container_move_assignment::value) id[i] = id[j]; /* the repository's tests want the copy trait to decide */ m[j].clear(); if (r.chance(50)) { v[j].clear(); id[j] = v[j].get_allocator().id; } else { v[j].~C(); id[j] = int(r.below(3)); new (&v[j]) C(mkc(id[j])); } cnt("moves")++; } break;
            case 6: if (i != j && (A::propagate_on_container_swap::value || v[i].get_allocator() == v[j].get_allocator())) { v[i].swap(v[j]); std::swap(m[i], m[j]); if (A::propagate_on_container_swap::value) std::swap(id[i], id[j]); cnt("swaps")++; } break;
            case 7: { C x(v[j]); VCHECK(x == v[j] && x.get_allocator().id == id[j], "compare", "[%s] a copy differs", nm); C y(std::move(x)); VCHECK(y == v[j] && y.get_allocator().id == id[j], "compare", "[%s] a moved copy differs", nm); break; }
            default: if (i != j) { auto nh = v[i].extract(Obj(k)); if (nh) { m[i].erase(m[i].find(k)); if (v[i].get_allocator() == v[j].get_allocator()) { if (!m[j].count(k)) { v[j].insert(std::move(nh)); m[j].insert(k); } } } } break;
            }
            for (size_t q : { i, j }) { VCHECK(v[q].get_allocator().id == id[q], "alloc-propagation", "[%s] the container has allocator %d, expected %d", nm, v[q].get_allocator().id, id[q]); VCHECK(v[q].size() == m[q].size(), "size", "[%s] size %zu, expected %zu", nm, v[q].size(), m[q].size()); auto it = m[q].begin(); for (auto& e : v[q]) { VCHECK(e.get() == *it, "content", "[%s] wrong element", nm); ++it; } v[q].verify(); }
        }
    }
    check_no_leaks(nm);
}
template<bool A, bool B, bool D> void alloc_case(Rng& r, bool multi) {
    using T = TAlloc<Obj, A, B, D>;
    char nm[80]; snprintf(nm, sizeof nm, "btree allocator, propagate copy=%d move=%d swap=%d", A, B, D);
    if (multi) alloc_hist<T>(r, nm, [](int id) { return gtl::btree_multiset<Obj, std::less<Obj>, T>(std::less<Obj>(), T(id)); });
    else alloc_hist<T>(r, nm, [](int id) { return gtl::btree_set<Obj, std::less<Obj>, T>(std::less<Obj>(), T(id)); });
}
int main(int argc, char** argv) {
    return run_main(argc, argv, { { "model", [](Rng& r, uint64_t i) { switch (i % 4) { case 0: bmodel<S0>(r, N[0]); break; case 1: bmodel<S1>(r, N[1]); break; case 2: bmodel<S2>(r, N[2]); break; default: bmodel<S3>(r, N[3]); break; } } },
        { "value", [](Rng& r, uint64_t i) { switch (i % 4) { case 0: bmodel<S0>(r, N[0]); break; case 1: bmodel<S1>(r, N[1]); break; case 2: bmodel<S2>(r, N[2]); break; default: bmodel<S3>(r, N[3]); break; } } },
        { "balance", [](Rng& r, uint64_t i) { switch (i % 4) { case 0: balance_case<int64_t, false>(r, "btree_set<int64>"); break; case 1: balance_case<Obj, true>(r, "btree_multiset<Obj>"); break; case 2: balance_case<Fat, false>(r, "btree_set<Fat>"); break; default: balance_case<int, true>(r, "btree_multiset<int>"); break; } } },
        { "alloc", [](Rng& r, uint64_t i) { bool m = (i / 8) & 1; switch (i % 8) { case 0: alloc_case<0, 0, 0>(r, m); break; case 1: alloc_case<1, 0, 0>(r, m); break; case 2: alloc_case<0, 1, 0>(r, m); break; case 3: alloc_case<0, 0, 1>(r, m); break; case 4: alloc_case<1, 1, 0>(r, m); break; case 5: alloc_case<1, 0, 1>(r, m); break; case 6: alloc_case<0, 1, 1>(r, m); break; default: alloc_case<1, 1, 1>(r, m); break; } } } });
}
