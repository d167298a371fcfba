// P07: equal keys hash equally in every representation; composite hashes depend on every
// component and on the order; families of structured keys spread over tables and submaps.
#include "hash_specs.hpp"
#include <cmath>
#include <set>
using namespace vf;
using std::string; using std::string_view;

enum class E8 : uint8_t { a, b }; enum class E32 : int32_t { x = -5 }; enum E64 : uint64_t { big = 1ull << 40 };
struct User { int a; string b; double c; bool operator==(const User& o) const { return a == o.a && b == o.b && c == o.c; }
    friend size_t hash_value(const User& u) { return gtl::HashState().combine(0, u.a, u.b, u.c); } };
struct Std { int64_t a; bool operator==(const Std& o) const { return a == o.a; } };
template<> struct std::hash<Std> { size_t operator()(const Std& s) const { return size_t(s.a) * 3; } };

template<class T> T rnd(Rng& r) {
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) {
        switch (r.below(6)) { case 0: return T(0.0); case 1: return T(-0.0); case 2: return T(int(r.below(100)) - 50); case 3: return std::numeric_limits<T>::infinity(); case 4: return T(r.below(1000)) / T(7); default: return std::numeric_limits<T>::denorm_min() * T(r.below(5)); }
    } else if constexpr (std::is_same_v<T, string>) { string s; size_t n = r.chance(20) ? r.below(200) : r.below(12); for (size_t i = 0; i < n; ++i) s.push_back(char(r.below(4) ? 'a' + r.below(3) : r.below(256))); return s; }
    else if constexpr (std::is_enum_v<T>) return T(std::underlying_type_t<T>(r.next()));
    else if constexpr (std::is_same_v<T, User>) return User{ int(r.below(3)), rnd<string>(r), rnd<double>(r) };
    else if constexpr (std::is_same_v<T, Std>) return Std{ int64_t(r.next()) };
    else if constexpr (std::is_pointer_v<T>) return reinterpret_cast<T>(uintptr_t(r.next() & 0x7ffffffffff0ull));
    else if constexpr (std::is_same_v<T, bool>) return r.chance(50);
    else { switch (r.below(4)) { case 0: return T(r.below(5)); case 1: return std::numeric_limits<T>::max(); case 2: return std::numeric_limits<T>::min(); default: return T(r.next()); } }
}
// the same value in another representation
template<class T> T other_rep(const T& x) {
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) return x == 0 ? (std::signbit(x) ? T(0.0) : T(-0.0)) : x;
    else if constexpr (std::is_same_v<T, string>) { string s; s.reserve(x.size() + 100); s.assign(x.begin(), x.end()); return s; }
    else if constexpr (std::is_same_v<T, User>) return User{ x.a, other_rep(x.b), other_rep(x.c) };
    else return x;
}
template<class A, class B> std::pair<A, B> other_rep(const std::pair<A, B>& p) { return { other_rep(p.first), other_rep(p.second) }; }
template<class... A> std::tuple<A...> other_rep(const std::tuple<A...>& t) { return std::apply([](const A&... a) { return std::tuple<A...>(other_rep(a)...); }, t); }

template<class T> void equal_keys(const T& x, const char* nm) {
    T y = other_rep(x);
    VCHECK(x == y, "oracle", "representation of %s", nm);
    gtl::Hash<T> h; typename gtl::flat_hash_set<T>::hasher h2;
    VCHECK(h(x) == h(y) && h(x) == h(x), "hash-equal", "equal %s values hash differently (%zx, %zx)", nm, h(x), h(y));
    VCHECK(h2(x) == h2(y), "hash-equal", "equal %s values hash differently in the default container hash", nm);
    gtl::flat_hash_set<T> s; s.insert(x);
    VCHECK(s.contains(y) && s.size() == 1 && !s.insert(y).second, "hash-equal", "an equal %s is not found in a set", nm);
    gtl::parallel_node_hash_set<T> p; p.insert(x);
    VCHECK(p.contains(y) && p.size() == 1 && !p.insert(y).second, "hash-equal", "an equal %s is not found in a parallel set", nm);
    cnt("equal_pairs")++;
}
template<class T> void scalar(Rng& r, const char* nm) {
    for (int i = 0; i < 20; ++i) {
        T x = rnd<T>(r), z = rnd<T>(r);
        oplog().add(nm, r.s & 0xffff);
        equal_keys(x, nm);
        equal_keys(std::pair<T, int>(x, 3), nm); equal_keys(std::tuple<int, T, string>(1, x, "q"), nm);
        if (!(x == z) && sizeof(T) >= 4 && !std::is_same_v<T, Std>) VCHECK((gtl::Hash<T>()(x) != gtl::Hash<T>()(z)), "hash-depends", "different %s values have the same hash", nm);
    }
}
// composites: every component and the order count
template<class A, class B, class C> void composite(Rng& r, const char* nm) {
    for (int i = 0; i < 30; ++i) {
        oplog().add(nm, r.s & 0xffff);
        A a = rnd<A>(r), a2 = rnd<A>(r); B b = rnd<B>(r), b2 = rnd<B>(r); C c = rnd<C>(r), c2 = rnd<C>(r);
        using P = std::pair<A, B>; using T = std::tuple<A, B, C>;
        equal_keys(P(a, b), nm); equal_keys(T(a, b, c), nm); equal_keys(std::pair<P, T>(P(a, b), T(a, b, c)), nm);
        auto hp = [](const P& p) { return gtl::Hash<P>()(p); }; auto ht = [](const T& t) { return gtl::Hash<T>()(t); };
        auto dep = [&](bool same, size_t h1, size_t h2, const char* what) { if (!same) { VCHECK(h1 != h2, "hash-depends", "the hash of a %s does not depend on %s", nm, what); cnt("component_changes")++; } };
        dep(a == a2, hp(P(a, b)), hp(P(a2, b)), "first (pair)"); dep(b == b2, hp(P(a, b)), hp(P(a, b2)), "second (pair)");
        dep(a == a2, ht(T(a, b, c)), ht(T(a2, b, c)), "element 0 (tuple)"); dep(b == b2, ht(T(a, b, c)), ht(T(a, b2, c)), "element 1 (tuple)"); dep(c == c2, ht(T(a, b, c)), ht(T(a, b, c2)), "element 2 (tuple)");
        auto hs = [&](const A& x, const B& y, const C& z) { return gtl::HashState().combine(0, x, y, z); };
        dep(a == a2, hs(a, b, c), hs(a2, b, c), "argument 1 (combine)"); dep(b == b2, hs(a, b, c), hs(a, b2, c), "argument 2 (combine)"); dep(c == c2, hs(a, b, c), hs(a, b, c2), "argument 3 (combine)");
        VCHECK(gtl::HashState().combine(1, a) != gtl::HashState().combine(2, a), "hash-depends", "combine ignores the seed");
        if constexpr (std::is_same_v<A, B>) { dep(a == b, hp(P(a, b)), hp(P(b, a)), "the order (pair)"); dep(a == b, ht(T(a, b, c)), ht(T(b, a, c)), "the order (tuple)"); dep(a == b, hs(a, b, c), hs(b, a, c), "the order (combine)"); }
        if constexpr (std::is_same_v<B, C>) { dep(b == c, ht(T(a, b, c)), ht(T(a, c, b)), "the order (tuple)"); dep(b == c, hs(a, b, c), hs(a, c, b), "the order (combine)"); }
        dep(false, gtl::HashState().combine(0, a, b), gtl::HashState().combine(0, a, b, c), "the number of components");
    }
}
void strings(Rng& r) {
    for (int i = 0; i < 60; ++i) {
        string s = rnd<string>(r); oplog().add("string", s.size(), r.s & 0xff);
        string buf = "Z" + s + "Z"; string_view v(buf.data() + 1, s.size());
        gtl::flat_hash_set<string>::hasher h; gtl::flat_hash_set<string_view>::hasher hv;
        VCHECK(h(s) == h(v) && hv(s) == hv(v) && h(s) == hv(v), "hash-equal", "string and string_view hash differently");
        if (s.find('\0') == string::npos) VCHECK(h(s.c_str()) == h(s), "hash-equal", "string and const char* hash differently");
        gtl::flat_hash_set<string_view> sv; sv.insert(v); VCHECK(sv.contains(s) && sv.contains(v), "hash-equal", "a string is not found in a set of views");
        string t = s; if (!t.empty()) { t[r.below(t.size())] ^= char(1 + r.below(255)); VCHECK(h(t) != h(s), "hash-depends", "the hash of a string does not depend on each character"); }
        t = s + char(r.below(3)); VCHECK(h(t) != h(s), "hash-depends", "the hash of a string does not depend on its length");
        cnt("equal_pairs") += 3;
    }
}
void equal_case(Rng& r, uint64_t i) {
    switch (i % 24) {
    case 0: scalar<double>(r, "double"); break; case 1: scalar<float>(r, "float"); break; case 2: scalar<int>(r, "int"); break; case 3: scalar<int64_t>(r, "int64_t"); break;
    case 4: scalar<uint8_t>(r, "uint8_t"); break; case 5: scalar<int16_t>(r, "int16_t"); break; case 6: scalar<E8>(r, "enum8"); break; case 7: scalar<E32>(r, "enum32"); break; case 8: scalar<E64>(r, "enum64"); break;
    case 9: scalar<User>(r, "hash_value type"); break; case 10: scalar<Std>(r, "std::hash type"); break; case 11: scalar<int*>(r, "pointer"); break; case 12: scalar<bool>(r, "bool"); break; case 13: scalar<string>(r, "string"); break;
    case 14: scalar<unsigned long long>(r, "unsigned long long"); break; case 15: scalar<char16_t>(r, "char16_t"); break; case 16: scalar<wchar_t>(r, "wchar_t"); break;
    case 17: composite<int, int, int>(r, "int triple"); break; case 18: composite<double, double, float>(r, "floating triple"); break; case 19: composite<string, string, int>(r, "string,string,int"); break;
    case 20: composite<int64_t, int64_t, string>(r, "int64,int64,string"); break; case 21: composite<User, int, int>(r, "User,int,int"); break; case 22: composite<uint32_t, double, double>(r, "uint32,double,double"); break;
    default: strings(r); break;
    }
}
// ------------------------------------------------------------------ distribution
template<class K> struct CntEq { bool operator()(const K& a, const K& b) const { ++g_eq_calls; return a == b; } };
template<class K, class G> void spread(Rng& r, const char* nm, G gen) {
    size_t n = size_t(r.range(3000, 12000));
    using H = typename gtl::flat_hash_set<K>::hasher;
    gtl::flat_hash_set<K, H, CntEq<K>> s;
    gtl::parallel_flat_hash_set<K, H, CntEq<K>, std::allocator<K>, 4> p;
    std::vector<K> ks; std::set<size_t> distinct;
    for (size_t i = 0; i < n; ++i) { K k = gen(i); if (s.insert(k).second) { ks.push_back(k); distinct.insert(s.hash(k)); } p.insert(k); }
    n = ks.size();
    oplog().add(nm, n, r.s & 0xffffff);
    VCHECK(p.size() == n, "size", "%s", nm);
    uint64_t e0 = g_eq_calls;
    for (auto& k : ks) VCHECK(s.contains(k), "lookup", "%s lost", nm);
    double eq = double(g_eq_calls - e0) / double(n);
    stat_max((string("max_eq_x1000_") + nm).c_str(), uint64_t(eq * 1000));
    VCHECK(eq <= 2.0, "spread-eq", "%s: %.2f key comparisons per lookup in a set of %zu", nm, eq, n);
    VCHECK(distinct.size() >= n - n / 100, "spread-collisions", "%s: %zu keys share %zu hash values", nm, n, distinct.size());
    size_t mx = 0, mn = n;
    for (size_t i = 0; i < p.subcnt(); ++i) p.with_submap(i, [&](const auto& x) { mx = std::max(mx, x.size()); mn = std::min(mn, x.size()); });
    double avg = double(n) / double(p.subcnt());
    stat_max((string("max_submap_x1000_") + nm).c_str(), uint64_t(double(mx) / avg * 1000));
    VCHECK(double(mx) <= 2.2 * avg && double(mn) >= 0.2 * avg, "spread-submaps", "%s: submaps hold between %zu and %zu of %zu elements (average %.0f)", nm, mn, mx, n, avg);
    // the memory of the parallel table follows: no submap is much bigger than needed
    using D = gtl::priv::hashtable_debug_internal::HashtableDebugAccess<gtl::flat_hash_set<K, H, CntEq<K>>>;
    if constexpr (requires { D::GetNumProbes(s, ks[0]); }) {
        uint64_t tot = 0; for (auto& k : ks) tot += D::GetNumProbes(s, k);
        double pr = double(tot) / double(n);
        stat_max((string("max_probes_x1000_") + nm).c_str(), uint64_t(pr * 1000));
        VCHECK(pr <= 4.0, "spread-probes", "%s: %.2f probes per lookup in a set of %zu", nm, pr, n);
    }
    cnt("spread_keys") += n;
}
void spread_case(Rng& r, uint64_t i) {
    uint64_t base = r.chance(50) ? 0 : r.next() >> r.below(40), stride = r.pick<uint64_t>({ 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 24, 32, 40, 48, 64, 100, 128, 256, 512, 1000, 1024, 4096, 65536, 1 << 20, 1 << 24 }); int sh = int(r.below(40));
    switch (i % 12) {
    case 0: spread<uint64_t>(r, "sequential", [&](size_t q) { return base + q; }); break;
    case 1: spread<uint64_t>(r, "strided", [&](size_t q) { return base + q * stride; }); break;
    case 2: spread<uint64_t>(r, "shifted", [&](size_t q) { return uint64_t(q) << sh; }); break;
    case 3: spread<int>(r, "int-strided", [&](size_t q) { return int(uint32_t(base) + uint32_t(q) * uint32_t(stride <= 4096 ? stride : 3)); }); break;
    case 4: spread<int*>(r, "pointers", [&](size_t q) { return reinterpret_cast<int*>(0x7f0000000000ull + (base & 0xffffff) * 4096 + q * (8ull << (sh % 8))); }); break;
    case 5: spread<double>(r, "doubles", [&](size_t q) { return double(q) * (sh % 2 ? 1.0 : 0.5) + double(base % 1000); }); break;
    case 6: spread<float>(r, "floats", [&](size_t q) { return float(q) + float(base % 100); }); break;
    case 7: { size_t w = r.range(2, 200); spread<std::pair<int, int>>(r, "pair-grid", [&](size_t q) { return std::pair<int, int>(int(q % w), int(q / w)); }); break; }
    case 8: { size_t w = r.range(2, 30); spread<std::tuple<int, int64_t, uint16_t>>(r, "tuple-grid", [&](size_t q) { return std::tuple<int, int64_t, uint16_t>(int(q % w), int64_t(q / w % w), uint16_t(q / w / w)); }); break; }
    case 9: spread<string>(r, "strings", [&](size_t q) { return "key" + std::to_string(base % 1000 + q); }); break;
    case 10: { size_t w = r.range(2, 100); spread<std::pair<uint64_t, uint64_t>>(r, "pair-strided", [&](size_t q) { return std::pair<uint64_t, uint64_t>((q % w) << (sh % 32), (q / w) * stride); }); break; }
    default: { size_t w = r.range(2, 60); spread<std::pair<string, double>>(r, "pair-string-double", [&](size_t q) { return std::pair<string, double>(std::to_string(q % w), double(q / w)); }); break; }
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "equal", equal_case }, { "spread", spread_case } }); }
