// P23: copies, moves and swaps of containers whose functors have a state which moving takes away.
#include "mt.hpp"
#include <gtl/btree.hpp>
#include <set>
using namespace vf;
struct FState { int id; };
// nothrow copyable; a moved-from functor cannot be called any more
template<int TAG> struct Fn {
    std::shared_ptr<FState> s; explicit Fn(int id = 0) : s(std::make_shared<FState>(FState{ id })) {}
    int id() const { VCHECK(s != nullptr, "functor", "a moved-from functor is used by a container"); return s->id; }
};
struct FHash : Fn<0> { using Fn::Fn; size_t operator()(int64_t k) const { return mix64(uint64_t(k) + uint64_t(id()) * 1000003); } };
struct FEq : Fn<1> { using Fn::Fn; bool operator()(int64_t a, int64_t b) const { id(); return a == b; } };
struct FLess : Fn<2> { using Fn::Fn; bool operator()(int64_t a, int64_t b) const { return id() & 1 ? b < a : a < b; } };
template<class C> constexpr bool is_map_v = requires { typename C::mapped_type; };
template<class C> constexpr bool ordered_v = requires(C c) { c.key_comp(); };
template<class C> void fcase(Rng& r, const char* nm) {
    constexpr size_t N = 3; std::vector<std::unique_ptr<C>> c; std::vector<std::map<int64_t, int64_t>> m(N); std::vector<int> id(N);
    auto mk = [&](int i) { if constexpr (ordered_v<C>) return std::make_unique<C>(FLess(i)); else return std::make_unique<C>(r.below(3) * 10, FHash(i), FEq(i)); };
    auto key = [](auto& e) -> int64_t { if constexpr (is_map_v<C>) return e.first; else return e; };
    auto fid = [](const C& x) { if constexpr (ordered_v<C>) return x.key_comp().id(); else { int a = x.hash_function().id(), b = x.key_eq().id(); VCHECK(a == b, "functor", "hash and equality functions of different containers"); return a; } };
    int next = 1; for (size_t i = 0; i < N; ++i) { id[i] = next++; c.push_back(mk(id[i])); }
    auto ins = [&](size_t i, int64_t k) { int64_t v = int64_t(r.below(1000)); bool fresh = !m[i].count(k); bool got; if constexpr (is_map_v<C>) got = c[i]->emplace(k, v).second; else got = c[i]->insert(k).second; VCHECK(got == fresh, "insert", "[%s] insert returned %d", nm, got); if (fresh) m[i][k] = v; };
    auto check = [&](size_t i, const char* op) {
        C& x = *c[i]; VCHECK(x.size() == m[i].size() && x.empty() == m[i].empty(), "size", "[%s] after %s size is %zu, expected %zu", nm, op, x.size(), m[i].size()); size_t n = 0; int64_t prev = 0;
        for (auto& e : x) { int64_t k = key(e); auto it = m[i].find(k); VCHECK(it != m[i].end(), "content", "[%s] after %s an element is there which should not be", nm, op); if constexpr (is_map_v<C>) VCHECK(e.second == it->second, "content", "[%s] after %s a value is wrong", nm, op); if constexpr (ordered_v<C>) { if (n) VCHECK(id[i] & 1 ? prev > k : prev < k, "order", "[%s] after %s the order is wrong", nm, op); prev = k; } ++n; }
        VCHECK(n == m[i].size(), "content", "[%s] after %s %zu elements, expected %zu", nm, op, n, m[i].size()); for (auto& e : m[i]) VCHECK(x.contains(e.first) && x.find(e.first) != x.end(), "find", "[%s] after %s a key is not found", nm, op); VCHECK(!x.contains(-5) && x.find(-5) == x.end() && x.count(-7) == 0, "find", "[%s] after %s an absent key is found", nm, op);
        VCHECK(fid(x) == id[i], "functor", "[%s] after %s the container uses the functions of another container", nm, op); cnt("states")++; };
    // a container moved from: empty, and it keeps working with whatever functions it has
    auto gone = [&](size_t j, const char* op) { C& x = *c[j]; VCHECK(x.empty() && x.size() == 0 && x.begin() == x.end(), "moved", "[%s] %s leaves elements behind", nm, op); id[j] = fid(x); m[j].clear(); VCHECK(!x.contains(3) && x.find(4) == x.end(), "moved", "[%s] a moved-from container finds something", nm); if (r.chance(70)) for (size_t q = r.below(30); q--;) ins(j, int64_t(r.below(50))); check(j, op); if (r.chance(20)) { x.clear(); m[j].clear(); check(j, "clear after a move"); } };
    size_t n = r.pick<size_t>({ 15, 40 });
    for (size_t it = 0; it < n; ++it) {
        size_t i = r.below(N), j = r.below(N); unsigned op = unsigned(r.below(11)); oplog().add("op", op, i * 4 + j);
        switch (op) {
        case 0: case 1: for (size_t q = r.pick<size_t>({ 1, 5, 40 }); q--;) ins(i, int64_t(r.below(60))); check(i, "insert"); break;
        case 2: { int64_t k = int64_t(r.below(60)); VCHECK(c[i]->erase(k) == m[i].erase(k), "erase", "[%s] erase", nm); check(i, "erase"); break; }
        case 3: { C t(*c[j]); c[i] = std::make_unique<C>(std::move(t)); m[i] = m[j]; id[i] = id[j]; check(i, "copy construction"); check(j, "copy construction"); VCHECK(*c[i] == *c[j], "equal", "[%s] a copy differs", nm); break; }
        case 4: *c[i] = std::as_const(*c[j]); m[i] = m[j]; id[i] = id[j]; check(i, "copy assignment"); check(j, "copy assignment"); break;
        case 5: if (i != j) { auto t = std::make_unique<C>(std::move(*c[j])); c[i] = std::move(t); m[i] = m[j]; id[i] = id[j]; check(i, "move construction"); gone(j, "move construction"); } break;
        case 6: if (i != j) { *c[i] = std::move(*c[j]); m[i] = m[j]; id[i] = id[j]; check(i, "move assignment"); gone(j, "move assignment"); } break;
        case 7: { using std::swap; if (r.chance(50)) c[i]->swap(*c[j]); else swap(*c[i], *c[j]); if (i != j) { std::swap(m[i], m[j]); std::swap(id[i], id[j]); } check(i, "swap"); check(j, "swap"); break; }
        case 8: { C& y = *c[i]; *c[i] = y; check(i, "self assignment"); break; }
        case 9: if (r.chance(30)) { id[i] = next++; c[i] = mk(id[i]); m[i].clear(); check(i, "construction"); } break;
        case 10: if (id[i] == id[j]) VCHECK((*c[i] == *c[j]) == (m[i] == m[j]) || !is_map_v<C>, "equal", "[%s] == is wrong", nm); break;
        }
    }
}
template<class K, class V> using FM = gtl::flat_hash_map<K, V, FHash, FEq>; template<class K, class V> using NM = gtl::node_hash_map<K, V, FHash, FEq>;
void c_fn(Rng& r, uint64_t i) {
    switch (i % 12) {
    case 0: return fcase<gtl::flat_hash_set<int64_t, FHash, FEq>>(r, "flat_hash_set"); case 1: return fcase<FM<int64_t, int64_t>>(r, "flat_hash_map");
    case 2: return fcase<gtl::node_hash_set<int64_t, FHash, FEq>>(r, "node_hash_set"); case 3: return fcase<NM<int64_t, int64_t>>(r, "node_hash_map");
    case 4: return fcase<gtl::parallel_flat_hash_set<int64_t, FHash, FEq>>(r, "parallel_flat_hash_set"); case 5: return fcase<gtl::parallel_flat_hash_map<int64_t, int64_t, FHash, FEq>>(r, "parallel_flat_hash_map");
    case 6: return fcase<gtl::parallel_node_hash_set<int64_t, FHash, FEq>>(r, "parallel_node_hash_set"); case 7: return fcase<gtl::parallel_node_hash_map<int64_t, int64_t, FHash, FEq>>(r, "parallel_node_hash_map");
    case 8: case 9: return fcase<gtl::btree_set<int64_t, FLess>>(r, "btree_set"); case 10: case 11: return fcase<gtl::btree_map<int64_t, int64_t, FLess>>(r, "btree_map");
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "fn", c_fn } }); }
