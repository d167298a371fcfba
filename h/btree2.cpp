// P24: b-tree containers and exceptions. Every throwing point (copy of an element, comparison, allocation)
// of each operation fails in turn.
#include "btree_world.hpp"
using namespace vf;
static const FaultKind KINDS[] = { F_CTOR, F_CMP, F_ALLOC };
static const char* const KN[] = { "copy", "hash", "equality", "allocation", "assignment", "call", "comparison" };
template<class S> void fault_case(Rng& r, const char* nm) {
    using C = typename S::Cont; using W = BWorld<S>; using VT = typename C::value_type; using Key = typename C::key_type; using Map = typename mapped_of<C>::type;
    {
        size_t U = r.pick<size_t>({ 12, 60, 300, 3000 });
        W w(r, nm, U, 5000); const char* what = "";
        // fill, in an order that leaves full or half full nodes
        size_t n = r.chance(10) ? 0 : r.pick<size_t>({ 1, 2, 5, 12, 40, 150, 700 }); n = S::multi ? n : std::min(n, U * 3 / 4); unsigned ord = unsigned(r.below(3)); oplog().add(nm, n, ord);
        for (size_t q = 0; q < n; ++q) { int64_t k = ord == 0 ? int64_t(q % U) : ord == 1 ? int64_t((n - q) % U) : w.rkey(), v = w.nv(); if (S::multi || !w.has(0, k)) { w.c[0]->insert(w.mk(k, v)); w.model_insert(0, k, v); } }
        for (size_t q = 0; q < 20; ++q) { int64_t k = w.rkey(), v = w.nv(); if (S::multi || !w.has(1, k)) { w.c[1]->insert(w.mk(k, v)); w.model_insert(1, k, v); } }
        w.full(0, "filling");
        size_t ops = r.range(3, 20); uint64_t fired_total = 0;
        for (size_t s = 0; s < ops; ++s) {
            unsigned op = unsigned(r.below(18)); if (op == 17 && !r.chance(15)) op = 0; FaultKind fk = KINDS[r.below(3)];
            if (r.chance(20) && w.m[0].size() > 100) { size_t d = w.m[0].size() / 2; auto a = w.at(0, d / 2), b = w.at(0, d / 2 + d); w.c[0]->erase(a, b); w.m[0].erase(w.m[0].begin() + std::ptrdiff_t(d / 2), w.m[0].begin() + std::ptrdiff_t(d / 2 + d)); }
            int64_t k = r.chance(30) && n ? int64_t((ord == 1 ? U - 1 : n + s) % U) : w.rkey(), v = w.nv(); size_t h = r.chance(50) ? w.lb(0, k) : r.below(w.m[0].size() + 1); bool was = w.has(0, k);
            if (op == 9 && was && !S::multi) op = 0;
            if (op == 14 && (S::multi || (S::is_map && fk == F_ALLOC))) op = 1; // see DESIGN.md, what is not claimed
            for (long at = 1; at < 4000; at += 1 + (at > 24 ? long(r.below(uint64_t(at) / 2)) : 0)) { // all points, thinned out behind the 24th
                C& x = *w.c[0]; bool fired = false, done = true; long live = g_live.load(); size_t blocks = 0;
                std::vector<E> ms; std::vector<VT> es; typename C::node_type nd;
                { VT e = w.mk(k, v);
                  if (op == 7 || op == 8) for (int q = 0; q < 25; ++q) { int64_t kk = (k + q * 7) % int64_t(U); es.push_back(w.mk(kk, v)); ms.push_back({ kk, v }); }
                  if (op == 9) { x.insert(w.mk(k, v)); nd = x.extract(w.at(0, w.ub(0, k))); }
                  oplog().add("op", op * 8 + unsigned(fk), uint64_t(at));
                  blocks = alloc_table().live.size(); arm(fk, at);
                  try {
                    switch (op) {
                    case 0: case 1: what = "insert"; x.insert(e); break;
                    case 2: what = "insert(&&)"; x.insert(std::move(e)); break;
                    case 3: what = "emplace"; if constexpr (S::is_map) x.emplace(e.first, e.second); else x.emplace(e); break;
                    case 4: what = "insert(hint)"; x.insert(w.at(0, h), e); break;
                    case 5: what = "emplace_hint"; if constexpr (S::is_map) x.emplace_hint(w.at(0, h), e.first, e.second); else x.emplace_hint(w.at(0, h), e); break;
                    case 6: what = "try_emplace"; if constexpr (S::is_map && !S::multi) { if (at & 1) x.try_emplace(e.first, e.second); else x.try_emplace(w.at(0, h), e.first, e.second); } else x.insert(e); break;
                    case 7: case 8: what = "insert(range)"; x.insert(es.begin(), es.end()); break;
                    case 9: what = "insert(node)"; x.insert(std::move(nd)); break;
                    case 10: what = "copy construction"; { C y(x); disarm(); VCHECK(y == x, "fault-content", "[%s] a copy differs", nm); } done = false; break;
                    case 11: what = "copy assignment"; { *w.c[1] = x; disarm(); w.m[1] = w.m[0]; } done = false; break;
                    case 12: what = "erase(key)"; if constexpr (S::is_map) x.erase(e.first); else x.erase(e); break;
                    case 13: what = "lookups"; { const Key* kp; if constexpr (S::is_map) kp = &e.first; else kp = &e; (void)x.find(*kp); (void)x.lower_bound(*kp); (void)x.count(*kp); (void)x.equal_range(*kp); } done = false; break;
                    case 14: what = "merge"; x.merge(*w.c[1]); break;
                    case 15: what = "extract"; { const Key* kp; if constexpr (S::is_map) kp = &e.first; else kp = &e; auto q = x.extract(*kp); disarm(); if (!q.empty()) { size_t p = 0; while (p < w.m[0].size() && !(w.m[0][p].k == (S::is_map ? w.m[0][p].k : k) && p >= w.lb(0, k))) ++p; } } break;
                    case 16: what = "operator[]"; if constexpr (S::is_map && !S::multi) { (void)x[e.first]; } else x.insert(e); break;
                    default: what = "range construction"; { std::vector<VT> z; disarm(); for (auto& q : x) z.push_back(q); arm(fk, at); C y(z.begin(), z.end(), x.key_comp(), x.get_allocator()); disarm(); VCHECK(y == x, "fault-content", "[%s] a copy from a range differs", nm); } done = false; break;
                    }
                    disarm();
                  } catch (const Fault&) { fired = true; disarm(); }
                }
                if (fired) {
                    ++fired_total; cnt((std::string("faults_") + KN[fk]).c_str())++;
                    if (op == 7 || op == 8) { // some prefix of the range is there
                        es.clear(); size_t q = 0; while (w.m[0].size() < x.size() && q < ms.size()) { if (S::multi || !w.has(0, ms[q].k)) w.model_insert(0, ms[q].k, ms[q].v); ++q; }
                        w.full(0, "a failed insert(range)"); continue;
                    }
                    if (op == 11) { es.clear(); w.full(0, "a failed copy assignment (source)"); size_t q = 0; for (auto& e : *w.c[1]) { (void)W::kid(e); ++q; } VCHECK(q == w.c[1]->size(), "fault-size", "[%s] after a failed copy assignment the size is %zu, %zu elements", nm, w.c[1]->size(), q); w.c[1]->verify(); w.m[1].clear(); for (auto& e : *w.c[1]) w.m[1].push_back(W::ent(e)); if (r.chance(50)) { w.c[1]->clear(); w.m[1].clear(); } continue; }
                    if (op == 14) { // every element is in exactly one of the two
                        std::vector<E> a = w.m[0]; for (auto& e : w.m[1]) a.push_back(e); std::vector<E> b; for (auto& e : x) b.push_back(W::ent(e)); for (auto& e : *w.c[1]) b.push_back(W::ent(e));
                        auto lt = [](const E& p, const E& q) { return p.k != q.k ? p.k < q.k : p.v < q.v; }; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
                        VCHECK(a == b, "fault-content", "[%s] a merge which throws (%s %ld) loses or changes elements", nm, KN[fk], at); x.verify(); w.c[1]->verify();
                        w.m[0].clear(); for (auto& e : x) w.m[0].push_back(W::ent(e)); w.m[1].clear(); for (auto& e : *w.c[1]) w.m[1].push_back(W::ent(e)); w.full(0, "a failed merge"); w.full(1, "a failed merge"); continue; }
                    char why[120]; snprintf(why, sizeof why, "a failed %s (%s %ld)", what, KN[fk], at); w.full(0, why);
                    if (op == 9) { VCHECK(!nd.empty(), "fault-content", "[%s] %s: the node handle is empty", nm, why); int64_t nk, nvv = 0; if constexpr (S::is_map) { nk = id_of(nd.key()); nvv = id_of(nd.mapped()); } else nk = id_of(nd.value()); VCHECK(nk == k && (!S::is_map || nvv == v), "fault-content", "[%s] %s: the node handle holds another element", nm, why); nd = typename C::node_type(); }
                    es.clear(); VCHECK(g_live.load() == live, "fault-leak", "[%s] %s: %ld objects instead of %ld", nm, why, g_live.load(), live);
                    VCHECK(alloc_table().live.size() == blocks, "fault-leak", "[%s] %s: %zu blocks instead of %zu", nm, why, alloc_table().live.size(), blocks);
                    continue;
                }
                if (done) { // it went well: update the model
                    switch (op) {
                    case 4: case 5: if (S::multi) { // position within the equivalents is not judged here
                        w.model_insert(0, k, v); w.m[0].clear(); for (auto& e : x) w.m[0].push_back(W::ent(e)); } else if (!was) w.model_insert(0, k, v); break;
                    case 7: case 8: for (auto& e : ms) if (S::multi || !w.has(0, e.k)) { if (S::multi && w.m[0].size() == x.size()) break; w.model_insert(0, e.k, e.v); } break;
                    case 12: { size_t l = w.lb(0, k), u = w.ub(0, k); w.m[0].erase(w.m[0].begin() + std::ptrdiff_t(l), w.m[0].begin() + std::ptrdiff_t(u)); break; }
                    case 14: { std::vector<E> rest; for (auto& e : w.m[1]) if (S::multi || !w.has(0, e.k)) w.model_insert(0, e.k, e.v); else rest.push_back(e); w.m[1] = rest; break; }
                    case 15: { size_t l = w.lb(0, k), u = w.ub(0, k); if (l != u) { VCHECK(x.size() + 1 == w.m[0].size(), "fault-size", "[%s] extract", nm); if (!S::multi) w.m[0].erase(w.m[0].begin() + std::ptrdiff_t(l)); else { w.m[0].clear(); for (auto& e : x) w.m[0].push_back(W::ent(e)); } } break; }
                    case 16: if (S::is_map && !S::multi) { if (!was) w.model_insert(0, k, 0); } else if (S::multi || !was) w.model_insert(0, k, v); break;
                    default: if (S::multi || !was) w.model_insert(0, k, v); break;
                    }
                }
                break;
            }
            w.full(0, what);
        }
        cnt("faults_injected") += fired_total; w.full(1, "everything");
        // and it goes on working
        for (size_t q = 0; q < 30; ++q) { int64_t k = w.rkey(), v = w.nv(); if (S::multi || !w.has(0, k)) { w.c[0]->insert(w.mk(k, v)); w.model_insert(0, k, v); } }
        while (!w.m[0].empty() && r.chance(98)) { size_t p = r.below(w.m[0].size()); w.c[0]->erase(w.at(0, p)); w.m[0].erase(w.m[0].begin() + std::ptrdiff_t(p)); }
        w.full(0, "everything");
    }
    check_no_leaks(nm);
}
using F0 = BSpec<gtl::btree_set<Obj, Cmp<Obj>, TAlloc<Obj>>, false, false, B_STATE>;
using F1 = BSpec<gtl::btree_multiset<Obj, Cmp<Obj>, TAlloc<Obj>>, false, true, B_STATE>;
using F2 = BSpec<gtl::btree_map<Obj, Obj, Cmp<Obj>, TAlloc<std::pair<const Obj, Obj>>>, true, false, B_STATE>;
using F3 = BSpec<gtl::btree_multimap<int64_t, Obj, Cmp<int64_t>, TAlloc<std::pair<const int64_t, Obj>>>, true, true, B_STATE>;
using F4 = BSpec<gtl::btree_set<Fat, CmpTo<Fat>, TAlloc<Fat>>, false, false, B_STATE>;
int main(int argc, char** argv) {
    return run_main(argc, argv, { { "fault", [](Rng& r, uint64_t i) { switch (i % 5) { case 0: fault_case<F0>(r, "btree_set<Obj>"); break; case 1: fault_case<F1>(r, "btree_multiset<Obj>"); break; case 2: fault_case<F2>(r, "btree_map<Obj,Obj>"); break; case 3: fault_case<F3>(r, "btree_multimap<int64,Obj>"); break; default: fault_case<F4>(r, "btree_set<Fat,three-way>"); break; } } } });
}
