// Instantiations of the hash containers which the drivers exercise.
#pragma once
#include "common.hpp"
#include <gtl/phmap.hpp>

namespace vf {

struct HState { int mode = 0; int64_t mod = 0; };
inline thread_local uint64_t g_eq_calls = 0, g_hash_calls = 0;

inline size_t weak_hash(int mode, uint64_t x) {
    switch (mode) {
    case 0: return size_t(mix64(x));
    case 1: return size_t(x);              // identity
    case 2: return 42;                     // everything collides
    case 3: return size_t(x % 3);          // three hash values
    case 4: return size_t(x << 32);        // low bits constant
    case 5: return size_t(x & ~uint64_t(0xff)); // groups of 256
    case 6: return size_t(x % 17) * 0x1000193u;
    case 7: return size_t(x << 57);        // only the top bits
    case 8: return size_t(mix64(x / 16));  // runs of 16 equal hashes
    default: return size_t(mix64(x / 64)); // runs of 64 equal hashes
    }
}
constexpr int kHashModes = 10;

inline int64_t canon(const HState& s, int64_t k) { return s.mod ? k % s.mod : k; }

inline int64_t id_of(int64_t k) { return k; }
inline int64_t id_of(int k) { return k; }
inline int64_t id_of(uint8_t k) { return k; }
inline int64_t id_of(const Obj& o) { return o.get(); }
inline std::string str_of(int64_t k) { // short (SSO) and long strings
    std::string s = std::to_string(k);
    if (k & 1) s = "a-rather-long-key-which-needs-the-heap-" + s;
    return s;
}
inline int64_t id_of(std::string_view s) { // inverse of str_of; a mangled string has no id
    size_t p = s.rfind('-');
    std::string d(p == std::string_view::npos ? s : s.substr(p + 1));
    if (d.empty() || d.size() > 12) return -999999;
    int64_t k = atoll(d.c_str());
    return str_of(k) == s ? k : -999999;
}
inline int64_t id_of(const std::string& s) { return id_of(std::string_view(s)); }

struct MObj : Obj { // move only
    MObj() = default;
    MObj(int64_t x) : Obj(x) {}
    MObj(MObj&&) noexcept = default;
    MObj& operator=(MObj&&) noexcept = default;
};

struct alignas(64) Over { // over-aligned element
    int64_t v; Obj o; char pad[40];
    Over() : v(0), o(0) {}
    Over(int64_t x) : v(x), o(x) { check(); }
    void check() const { VCHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "alignment", "over-aligned element at %p", (const void*)this); }
    int64_t get() const { check(); VCHECK(o.get() == v, "content", "element torn"); return v; }
    Over(const Over& x) : v(x.v), o(x.o) { check(); }
    Over(Over&& x) noexcept : v(x.v), o(std::move(x.o)) { check(); }
    Over& operator=(const Over&) = default;
    Over& operator=(Over&&) noexcept = default;
    bool operator==(const Over& x) const { return get() == x.get(); }
};
inline int64_t id_of(const Over& o) { return o.get(); }

struct Nsl : Obj { // not a standard-layout type: pairs of it cannot be seen as pairs of another type
    int64_t extra;
    Nsl() : extra(~int64_t(0)) {}
    Nsl(int64_t x) : Obj(x), extra(~x) {}
    int64_t get() const { int64_t x = Obj::get(); VCHECK(extra == ~x, "content", "element torn"); return x; }
    bool operator==(const Nsl& x) const { return get() == x.get(); }
    bool operator<(const Nsl& x) const { return get() < x.get(); }
};
inline int64_t id_of(const Nsl& o) { return o.get(); }

template<class T> T make_of(int64_t k) {
    if constexpr (std::is_same_v<T, std::string>) return str_of(k);
    else return T(k);
}

// hash and equality functors with state (they have to travel with the container)
template<class K, bool Transparent = false> struct Hsh {
    HState s;
    template<class T> size_t do_hash(const T& k) const { ++g_hash_calls; fault_point(F_HASH); return weak_hash(s.mode, uint64_t(canon(s, id_of(k)))); }
    size_t operator()(const K& k) const { return do_hash(k); }
};
template<class K> struct Hsh<K, true> {
    using is_transparent = void;
    HState s;
    template<class T> size_t operator()(const T& k) const { ++g_hash_calls; fault_point(F_HASH); return weak_hash(s.mode, uint64_t(canon(s, id_of(k)))); }
};
template<class K, bool Transparent = false> struct Eql {
    HState s;
    bool operator()(const K& a, const K& b) const { ++g_eq_calls; fault_point(F_EQ); return canon(s, id_of(a)) == canon(s, id_of(b)); }
};
template<class K> struct Eql<K, true> {
    using is_transparent = void;
    HState s;
    template<class A, class B> bool operator()(const A& a, const B& b) const { ++g_eq_calls; fault_point(F_EQ); return canon(s, id_of(a)) == canon(s, id_of(b)); }
};

template<class C, bool MAP, bool NODE, bool PAR, bool STATEFUL>
struct SpecBase {
    using Cont = C;
    using Key  = typename C::key_type;
    static constexpr bool is_map = MAP, is_node = NODE, is_par = PAR, stateful = STATEFUL;
    static C make(size_t buckets, const HState& s, int alloc_id = 0) {
        if constexpr (STATEFUL)
            return C(buckets, typename C::hasher{ s }, typename C::key_equal{ s }, mk_alloc(alloc_id));
        else { (void)s; (void)alloc_id; return C(buckets); }
    }
    template<class A = typename C::allocator_type> static A mk_alloc(int id) {
        if constexpr (std::is_constructible_v<A, int>) return A(id); else { (void)id; return A(); }
    }
};
template<class C> struct mapped_of { using type = int64_t; };
template<class C> requires requires { typename C::mapped_type; } struct mapped_of<C> { using type = typename C::mapped_type; };

template<class K, class V> using TA = TAlloc<std::pair<const K, V>>;

#define MAPSPEC(NAME, NODE, PAR, ST, ...) struct NAME : SpecBase<__VA_ARGS__, true, NODE, PAR, ST> { static constexpr const char* name = #NAME; };
#define SETSPEC(NAME, NODE, PAR, ST, ...) struct NAME : SpecBase<__VA_ARGS__, false, NODE, PAR, ST> { static constexpr const char* name = #NAME; };

// plain containers
MAPSPEC(FMapIntObj,   false, false, false, gtl::flat_hash_map<int64_t, Obj>)
MAPSPEC(FMapObjObjA,  false, false, true,  gtl::flat_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, TA<Obj, Obj>>)
MAPSPEC(FMapObjObj,   false, false, true,  gtl::flat_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>>)
MAPSPEC(NMapStrStr,   true,  false, false, gtl::node_hash_map<std::string, std::string>)
MAPSPEC(NMapObjObjA,  true,  false, true,  gtl::node_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, TA<Obj, Obj>>)
MAPSPEC(FMapStrStr,   false, false, false, gtl::flat_hash_map<std::string, std::string>)
MAPSPEC(FMapIntM,     false, false, true,  gtl::flat_hash_map<int64_t, MObj, Hsh<int64_t>, Eql<int64_t>>)
MAPSPEC(FMapIntInt,   false, false, true,  gtl::flat_hash_map<int, int, Hsh<int>, Eql<int>>)
MAPSPEC(FMapIntOver,  false, false, true,  gtl::flat_hash_map<int64_t, Over, Hsh<int64_t>, Eql<int64_t>>)
SETSPEC(FSetInt,      false, false, false, gtl::flat_hash_set<int64_t>)
SETSPEC(FSetStr,      false, false, false, gtl::flat_hash_set<std::string>)
SETSPEC(FSetObjA,     false, false, true,  gtl::flat_hash_set<Obj, Hsh<Obj>, Eql<Obj>, TAlloc<Obj>>)
SETSPEC(NSetObj,      true,  false, true,  gtl::node_hash_set<Obj, Hsh<Obj>, Eql<Obj>>)
SETSPEC(NSetStrA,     true,  false, true,  gtl::node_hash_set<std::string, Hsh<std::string>, Eql<std::string>, TAlloc<std::string>>)
MAPSPEC(NMapIntIntA,  true,  false, true,  gtl::node_hash_map<int, int, Hsh<int>, Eql<int>, TA<int, int>>)
MAPSPEC(FMapNslNslA,  false, false, true,  gtl::flat_hash_map<Nsl, Nsl, Hsh<Nsl>, Eql<Nsl>, TA<Nsl, Nsl>>)
SETSPEC(NSetInt,      true,  false, false, gtl::node_hash_set<int64_t>)
SETSPEC(FSetIntA,     false, false, true,  gtl::flat_hash_set<int64_t, Hsh<int64_t>, Eql<int64_t>, TAlloc<int64_t>>)
// parallel containers, used from one thread
MAPSPEC(PFMapIntObj,  false, true,  false, gtl::parallel_flat_hash_map<int64_t, Obj>)
MAPSPEC(PFMapObjObjA, false, true,  true,  gtl::parallel_flat_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, TA<Obj, Obj>, 2, std::mutex>)
MAPSPEC(PNMapStrStr,  true,  true,  false, gtl::parallel_node_hash_map<std::string, std::string, gtl::flat_hash_set<std::string>::hasher, gtl::flat_hash_set<std::string>::key_equal, std::allocator<std::pair<const std::string, std::string>>, 3, std::shared_mutex>)
MAPSPEC(PNMapObjObj,  true,  true,  true,  gtl::parallel_node_hash_map<Obj, Obj, Hsh<Obj>, Eql<Obj>, std::allocator<std::pair<const Obj, Obj>>, 1, std::mutex>)
SETSPEC(PFSetInt,     false, true,  true,  gtl::parallel_flat_hash_set<int64_t, Hsh<int64_t>, Eql<int64_t>, std::allocator<int64_t>, 4, std::shared_mutex>)
SETSPEC(PNSetStr,     true,  true,  true,  gtl::parallel_node_hash_set<std::string, Hsh<std::string>, Eql<std::string>, TAlloc<std::string>, 6, gtl::NullMutex>)
MAPSPEC(PNMapIntIntA, true,  true,  true,  gtl::parallel_node_hash_map<int, int, Hsh<int>, Eql<int>, TA<int, int>, 3, std::mutex>)
MAPSPEC(PFMapObjM,    false, true,  true,  gtl::parallel_flat_hash_map<Obj, MObj, Hsh<Obj>, Eql<Obj>, std::allocator<std::pair<const Obj, MObj>>, 2, std::shared_mutex>)
SETSPEC(PFSetObj0,    false, true,  true,  gtl::parallel_flat_hash_set<Obj, Hsh<Obj>, Eql<Obj>, std::allocator<Obj>, 0, std::mutex>)

} // namespace vf
