// P15, P16, P23: gtl::vector.
#include "common.hpp"
#include <gtl/vector.hpp>
#include <iterator>
#include <list>
#include <sstream>
using namespace vf;
#ifndef CFG
#define CFG 0
#endif

// ------------------------------------------------------------------ elements
struct Pod24 { int64_t v; int64_t w, x; };
struct alignas(64) Over { int64_t v; Over(int64_t a = 0) : v(a) { if (reinterpret_cast<uintptr_t>(this) % 64) violation("alignment", "an over-aligned element lies at %p", (void*)this); } Over(const Over& o) : v(o.v) { if (reinterpret_cast<uintptr_t>(this) % 64) violation("alignment", "an over-aligned element lies at %p", (void*)this); } Over& operator=(const Over&) = default; };
struct MOnly { Obj o; MOnly(int64_t v = 0) : o(v) {} MOnly(MOnly&&) = default; MOnly& operator=(MOnly&&) = default; };
enum Color : uint8_t {};
struct Sx { int a[40]; };
template<class T> struct E { // how a value is made, read and compared
    static T make(int64_t v) { if constexpr (std::is_same_v<T, std::string>) { if (v == 0) return std::string(); std::string s = std::to_string(v); if (v % 3) s += std::string(30, 'x'); return s; }
        else if constexpr (std::is_same_v<T, Pod24>) return Pod24{ v, v ? ~v : 0, v }; else return T(v); }
    static int64_t get(const T& t) { if constexpr (std::is_same_v<T, std::string>) return t.empty() ? 0 : atoll(t.c_str());
        else if constexpr (std::is_same_v<T, Pod24>) { if (t.w != (t.v ? ~t.v : 0) || t.x != t.v) violation("torn", "a trivially copyable element was copied partially"); return t.v; }
        else if constexpr (std::is_same_v<T, Over>) return t.v; else if constexpr (std::is_same_v<T, MOnly>) return t.o.get(); else if constexpr (std::is_scalar_v<T>) return int64_t(t); else return t.get(); }
};
inline bool operator==(const Pod24& a, const Pod24& b) { return a.v == b.v; }
inline bool operator<(const Pod24& a, const Pod24& b) { return a.v < b.v; }
inline bool operator==(const Over& a, const Over& b) { return a.v == b.v; }
inline bool operator<(const Over& a, const Over& b) { return a.v < b.v; }
inline bool operator==(const MOnly& a, const MOnly& b) { return a.o == b.o; }
inline bool operator<(const MOnly& a, const MOnly& b) { return a.o < b.o; }

// single-pass input iterator over numbers: every read, copy and increment is monitored
template<class T> struct InSrc { const std::vector<int64_t>* v; size_t pos = 0; };
template<class T> struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = T;
    InSrc<T>* s; size_t at;
    T operator*() const { VCHECK(s && at == s->pos && at < s->v->size(), "input-iterator", "an input iterator was read twice or past its end"); fault_point(F_CALL); return E<T>::make((*s->v)[at]); }
    InIt& operator++() { VCHECK(s && at == s->pos, "input-iterator", "an old copy of an input iterator was incremented"); at = ++s->pos; return *this; }
    void operator++(int) { ++*this; }
    bool done() const { return !s || at >= s->v->size(); }
    friend bool operator==(const InIt& a, const InIt& b) { return a.done() == b.done(); }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

template<class T, class A> struct VSpec { using V = gtl::vector<T, A>; };
template<class A> int aid(const A& a) { if constexpr (requires { a.id; }) return a.id; else return 0; }
template<class A> A mka(int i) { if constexpr (requires { A(i).id; }) return A(i); else return A(); }

template<class T, class A>
struct VW {
    using V = gtl::vector<T, A>;
    using AT = std::allocator_traits<A>;
    static constexpr bool COPY = std::is_copy_constructible_v<T>;
    static constexpr bool STD = std::is_same_v<A, std::allocator<T>>;
    static constexpr bool SMALL = std::is_scalar_v<T> && sizeof(T) == 1;
    struct S { std::unique_ptr<V> c; std::vector<int64_t> m; size_t resv = 0; int id = 0; };
    Rng& r; const char* nm; std::vector<S> ss; int64_t nextv = 1; std::vector<int64_t>* M() { return nullptr; }
    VW(Rng& r_, const char* n) : r(r_), nm(n), ss(3) { for (auto& s : ss) fresh(s); }
    int64_t nv() { if (SMALL) return int64_t(r.below(100)); return r.chance(15) ? int64_t(r.below(8)) : int64_t(r.below(1000)); }
    void fresh(S& s) { s.id = STD ? 0 : int(r.below(3)); s.c = std::make_unique<V>(mka<A>(s.id)); s.m.clear(); s.resv = 0; }
    std::vector<int64_t> nums(size_t n) { std::vector<int64_t> v(n); for (auto& x : v) x = nv(); return v; }
    size_t len() { unsigned k = unsigned(r.below(20)); return k < 9 ? r.below(4) : k < 15 ? r.below(12) : k < 19 ? r.below(40) : r.below(150); }
    // lengths which exactly fill, or just exceed, the spare capacity
    size_t len(const V& v) { size_t sp = v.capacity() - v.size(); if (r.chance(30) && sp <= 200) { size_t d = r.below(3); return sp + 1 >= d ? sp + 1 - d : 0; } return len(); }
    size_t pos(const S& s) { size_t n = s.m.size(); unsigned k = unsigned(r.below(10)); return k < 2 ? 0 : k < 4 ? n : k < 5 && n ? n - 1 : r.below(n + 1); }
    size_t elem(const S& s) { return r.below(s.m.size()); }

    void check(S& s, const char* what) {
        V& c = *s.c; const V& k = c; auto& m = s.m;
        VCHECK(c.size() == m.size() && c.empty() == m.empty(), "size", "[%s] %s: size %zu, expected %zu", nm, what, c.size(), m.size());
        VCHECK(c.capacity() >= c.size(), "capacity", "[%s] %s: capacity %zu below size %zu", nm, what, c.capacity(), c.size());
        VCHECK(c.capacity() >= s.resv, "capacity", "[%s] %s: capacity %zu after reserve(%zu)", nm, what, c.capacity(), s.resv);
        VCHECK(size_t(c.end() - c.begin()) == m.size() && k.begin() == c.begin() && k.cend() == c.end() && k.data() == k.begin() && c.data() == c.begin(), "iterators", "[%s] %s: begin/end/data disagree", nm, what);
        for (size_t i = 0; i < m.size(); ++i) { int64_t v = E<T>::get(k[i]); VCHECK(v == m[i], "contents", "[%s] %s: element %zu of %zu is %lld, expected %lld", nm, what, i, m.size(), (long long)v, (long long)m[i]); }
        VCHECK(aid(c.get_allocator()) == s.id, "allocator", "[%s] %s: allocator %d, expected %d", nm, what, aid(c.get_allocator()), s.id);
        cnt("elements_compared") += m.size();
    }
    void check_access(S& s) {
        V& c = *s.c; const V& k = c; auto& m = s.m; size_t n = m.size();
        for (size_t i : { size_t(0), n ? n - 1 : 0, n, n + 1, r.below(n + 3), ~size_t(0) }) {
            bool thrown = false; int64_t v = 0, w = 0;
            try { v = E<T>::get(k.at(i)); w = E<T>::get(c.at(i)); } catch (const std::out_of_range&) { thrown = true; }
            VCHECK(thrown == (i >= n), "at", "[%s] at(%zu) with size %zu %s", nm, i, n, thrown ? "throws" : "does not throw");
            if (!thrown) VCHECK(v == m[i] && w == m[i] && &c.at(i) == &c[i] && &k[i] == &c[i], "at", "[%s] at(%zu) is %lld, expected %lld", nm, i, (long long)v, (long long)m[i]);
        }
        if (n) VCHECK(E<T>::get(k.front()) == m.front() && E<T>::get(c.back()) == m.back() && E<T>::get(k.back()) == m.back() && &c.front() == &k.front(), "front-back", "[%s] front or back wrong", nm);
        size_t i = n; for (auto it = k.rbegin(); it != k.rend(); ++it) { VCHECK(i > 0 && E<T>::get(*it) == m[i - 1], "reverse", "[%s] reverse iteration differs", nm); --i; }
        VCHECK(i == 0 && size_t(c.crend() - c.crbegin()) == n, "reverse", "[%s] reverse iteration has wrong length", nm);
    }
    void check_cmp(S& a, S& b) {
        auto& x = a.m; auto& y = b.m; bool e = *a.c == *b.c, l = *a.c < *b.c;
        std::vector<T>* dummy = nullptr; (void)dummy;
        bool me = x == y, ml; if constexpr (std::is_same_v<T, std::string>) { std::vector<std::string> p, q; for (auto v : x) p.push_back(E<T>::make(v)); for (auto v : y) q.push_back(E<T>::make(v)); ml = p < q; } else ml = x < y;
        VCHECK(e == me && (*a.c != *b.c) == !me, "equal", "[%s] == is %d, expected %d", nm, e, me);
        bool g = *a.c > *b.c, le = *a.c <= *b.c, ge = *a.c >= *b.c; bool mg = !ml && !me;
        VCHECK(l == ml && g == mg && le == !mg && ge == !ml, "order", "[%s] ordering comparisons differ: < %d > %d <= %d >= %d, expected %d %d", nm, l, g, le, ge, ml, mg);
        cnt("comparisons")++;
    }
    // an operation which has room must not move the storage, nor the elements before p
    struct Room { const T* d; size_t cap; bool room; };
    Room room(S& s, size_t n) { return Room{ s.c->data(), s.c->capacity(), s.c->size() + n <= s.c->capacity() }; }
    void kept(S& s, const Room& q, const char* what) {
        if (q.room) { VCHECK(s.c->data() == q.d && s.c->capacity() == q.cap, "reallocated", "[%s] %s reallocated although the capacity sufficed", nm, what); cnt("in_place")++; }
        else { VCHECK(s.c->capacity() >= s.c->size(), "capacity", "[%s] %s", nm, what); cnt("reallocations")++; }
    }
    template<class It> void ret(S& s, It it, size_t p, const char* what) { VCHECK(it >= s.c->begin() && it <= s.c->end() && size_t(it - s.c->begin()) == p, "returned-iterator", "[%s] %s returned position %td, expected %zu", nm, what, it - s.c->begin(), p); }
    void move_in(std::vector<int64_t>& m, size_t p, const std::vector<int64_t>& v) { m.insert(m.begin() + std::ptrdiff_t(p), v.begin(), v.end()); }
    std::vector<T> elems(const std::vector<int64_t>& v) { std::vector<T> o; o.reserve(v.size()); for (auto x : v) o.push_back(E<T>::make(x)); return o; }

    void op() {
        S& s = ss[r.below(ss.size())]; S& t = ss[r.below(ss.size())]; V& c = *s.c; auto& m = s.m; size_t n = m.size();
        auto at = [&](size_t p) { return c.cbegin() + std::ptrdiff_t(p); };
        unsigned k = unsigned(r.below(COPY ? 44 : 24)); const char* what = ""; if (g_value && r.chance(55)) k = COPY ? r.pick<unsigned>({ 14, 15, 16, 17, 40, 40, 42, 42 }) : r.pick<unsigned>({ 14, 15, 16, 17 });
        auto log = [&](const char* w, size_t a = 0, size_t b = 0) { what = w; oplog().add(w, a * 1000003 + n, b * 7 + size_t(&s - ss.data())); };
        switch (k) {
        case 0: case 1: { int64_t v = nv(); log("push_back&&", size_t(v)); auto q = room(s, 1); c.push_back(E<T>::make(v)); m.push_back(v); kept(s, q, what); break; }
        case 2: { int64_t v = nv(); log("emplace_back", size_t(v)); auto q = room(s, 1); auto& e = [&]() -> T& { if constexpr (std::is_same_v<T, Pod24>) return c.emplace_back(E<T>::make(v)); else if constexpr (std::is_same_v<T, std::string>) return c.emplace_back(E<T>::make(v).c_str()); else return c.emplace_back(v); }(); m.push_back(v); VCHECK(&e == &c.back(), "returned-reference", "[%s] emplace_back returned the wrong element", nm); kept(s, q, what); break; }
        case 3: { if (!n) break; log("pop_back"); c.pop_back(); m.pop_back(); break; }
        case 4: { size_t p = pos(s); int64_t v = nv(); log("insert&&", p, size_t(v)); auto q = room(s, 1); auto it = c.insert(at(p), E<T>::make(v)); m.insert(m.begin() + std::ptrdiff_t(p), v); ret(s, it, p, what); kept(s, q, what); break; }
        case 5: { size_t p = pos(s); int64_t v = nv(); log("emplace", p, size_t(v)); auto q = room(s, 1); auto it = c.emplace(at(p), E<T>::make(v)); m.insert(m.begin() + std::ptrdiff_t(p), v); ret(s, it, p, what); kept(s, q, what); break; }
        case 6: { if (!n) break; size_t p = elem(s); log("erase", p); const T* d = c.data(); auto it = c.erase(at(p)); m.erase(m.begin() + std::ptrdiff_t(p)); ret(s, it, p, what); VCHECK(c.data() == d, "reallocated", "[%s] erase reallocated", nm); break; }
        case 7: case 8: { size_t a = r.below(n + 1), b = r.range(a, n); if (r.chance(30)) b = std::min(n, a + 2); log("erase_range", a, b); const T* d = c.data(); auto it = c.erase(at(a), at(b)); m.erase(m.begin() + std::ptrdiff_t(a), m.begin() + std::ptrdiff_t(b)); ret(s, it, a, what); VCHECK(c.data() == d, "reallocated", "[%s] erase reallocated", nm); break; }
        case 9: { size_t z = r.chance(50) ? n + len(c) : r.below(n + 1); log("resize", z); auto q = room(s, z > n ? z - n : 0); c.resize(z); m.resize(z); kept(s, q, what); break; }
        case 10: { size_t z = n + len(c); log("reserve", z); auto q = room(s, z - n); c.reserve(z); s.resv = std::max(s.resv, z); kept(s, q, what); break; }
        case 11: { if (r.chance(15)) { // more elements than can ever be addressed: refused, and the vector stays as it is
                size_t k2 = r.below(9), big = sizeof(T) == 1 ? SIZE_MAX - k2 : SIZE_MAX / sizeof(T) + 1 + k2; if (r.chance(20)) big = SIZE_MAX - k2; unsigned w = unsigned(r.below(COPY ? 6 : 3)); log("too many", w, k2); const T* d = c.data(); size_t cap = c.capacity(); bool refused = false; (void)d; (void)cap;
                try { switch (w) { case 0: c.reserve(big); break; case 1: c.resize(big); break; case 2: { V x(big, mka<A>(s.id)); break; }
                    default: if constexpr (COPY) { const T e = E<T>::make(1); if (w == 3) c.insert(at(pos(s)), big, e); else if (w == 4) c.resize(big, e); else { V x(big, e, mka<A>(s.id)); } } } } catch (const std::length_error&) { refused = true; } catch (const std::bad_alloc&) { refused = true; }
                VCHECK(refused, "too-many", "[%s] %zu elements were accepted", nm, big); VCHECK(c.data() == d && c.capacity() == cap, "too-many", "[%s] a refused call changed the vector", nm); cnt("refused")++; break; }
            log("reserve_small"); size_t z = r.below(c.capacity() + 1); const T* d = c.data(); size_t cap = c.capacity(); c.reserve(z); VCHECK(c.data() == d && c.capacity() == cap, "reserve", "[%s] reserve below the capacity changed it", nm); break; }
        case 12: { log("shrink_to_fit"); size_t cap = c.capacity(); c.shrink_to_fit(); s.resv = 0; VCHECK(c.capacity() <= cap, "shrink", "[%s] shrink_to_fit enlarged the capacity", nm); break; }
        case 13: { log("clear"); size_t cap = c.capacity(); const T* d = c.data(); c.clear(); m.clear(); VCHECK(c.capacity() == cap && c.data() == d, "clear", "[%s] clear changed the capacity", nm); break; }
        case 14: { if (&s == &t) { log("self-swap"); c.swap(c); break; } log("swap", size_t(&t - ss.data())); if (s.id != t.id && !AT::propagate_on_container_swap::value) break; const T *d1 = c.data(), *d2 = t.c->data(); if (r.chance(50)) c.swap(*t.c); else { using std::swap; swap(c, *t.c); } m.swap(t.m); std::swap(s.resv, t.resv); if (AT::propagate_on_container_swap::value) std::swap(s.id, t.id); VCHECK(c.data() == d2 && t.c->data() == d1, "swap", "[%s] swap did not exchange the storage", nm); check(t, what); break; }
        case 15: { if (&s == &t) { log("self-move"); V& alias = c; c = std::move(alias); break; }
            log("move-assign", size_t(&t - ss.data())); bool steal = s.id == t.id || AT::propagate_on_container_move_assignment::value; const T* d = t.c->data(); auto& x = (c = std::move(*t.c)); VCHECK(&x == &c, "returned-reference", "[%s] operator= returned something else", nm);
            if (steal) VCHECK(c.data() == d, "move-assign", "[%s] move assignment copied although it could take the storage", nm);
            m = t.m; if (AT::propagate_on_container_move_assignment::value) { int old = s.id; s.id = t.id; int got = aid(t.c->get_allocator()); VCHECK(got == old || got == t.id, "allocator", "[%s] allocator %d of a moved-from vector", nm, got); t.id = got; }
            s.resv = steal ? t.resv : 0; check(s, what); reuse(t, what); break; }
        case 16: { log("move-construct", size_t(&t - ss.data())); if (&s == &t) break; const T* d = t.c->data(); auto p = std::make_unique<V>(std::move(*t.c)); VCHECK(p->data() == d && t.c->empty(), "move-construct", "[%s] move construction did not take the storage and leave the source empty", nm); s.c = std::move(p); m = t.m; s.id = t.id; s.resv = t.resv; t.m.clear(); t.resv = 0; check(t, what); break; }
        case 17: { if (&s == &t) break; int id = STD ? 0 : int(r.below(3)); log("move-construct-alloc", size_t(id)); const T* d = t.c->data(); auto p = std::make_unique<V>(std::move(*t.c), mka<A>(id)); if (id == t.id) VCHECK(p->data() == d, "move-construct", "[%s] move construction with an equal allocator did not take the storage", nm); s.c = std::move(p); m = t.m; s.resv = 0; s.id = id; check(s, what); reuse(t, what); break; }
        case 18: { size_t z = len(); log("construct(n)", z); s.id = STD ? 0 : int(r.below(3)); s.c = std::make_unique<V>(z, mka<A>(s.id)); m.assign(z, 0); s.resv = 0; break; }
        case 19: { auto v = nums(len()); log("construct-move-range", v.size()); auto src = elems(v); s.id = STD ? 0 : int(r.below(3)); s.c = std::make_unique<V>(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()), mka<A>(s.id)); m = v; s.resv = 0; break; }
        case 20: { auto v = nums(len(c)); size_t p = pos(s); log("insert-move-range", p, v.size()); auto src = elems(v); auto q = room(s, v.size()); auto it = c.insert(at(p), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())); move_in(m, p, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 21: { auto v = nums(len(c)); size_t p = pos(s); log("insert-input", p, v.size()); InSrc<T> src{ &v }; auto q = room(s, v.size()); auto it = c.insert(at(p), InIt<T>{ &src, 0 }, InIt<T>{ nullptr, 0 }); move_in(m, p, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 22: { auto v = nums(len(c)); log("assign-input", v.size()); InSrc<T> src{ &v }; if (r.chance(30)) { s.id = STD ? 0 : int(r.below(3)); s.c = std::make_unique<V>(InIt<T>{ &src, 0 }, InIt<T>{ nullptr, 0 }, mka<A>(s.id)); s.resv = 0; } else c.assign(InIt<T>{ &src, 0 }, InIt<T>{ nullptr, 0 }); m = v; break; }
        case 23: { if (!n) break; int64_t d = m[elem(s)]; log("erase_if", size_t(d)); int md = int(r.range(2, 5)); auto pr = [&](int64_t x) { return r.s ? (x % md) == d % md : false; }; bool byif = r.chance(60) || !COPY;
            if (byif) { gtl::erase_if(c, [&](const T& e) { return pr(E<T>::get(e)); }); m.erase(std::remove_if(m.begin(), m.end(), pr), m.end()); }
            else if constexpr (COPY) { gtl::erase(c, E<T>::make(d)); m.erase(std::remove(m.begin(), m.end(), d), m.end()); } break; }
        default: if constexpr (COPY) copy_op(k, s, t, log, what); break;
        }
        if (!*what) return;
        check(s, what);
        if (&s != &t) check(t, what);
        if (r.chance(20)) check_access(s);
        if (r.chance(g_value ? 50 : 15)) check_cmp(s, t);
    }
    // a moved-from vector: valid but unspecified; after clear or assign it must be usable
    void reuse(S& t, const char* what) {
        VCHECK(t.c->capacity() >= t.c->size(), "moved-from", "[%s] %s: the moved-from vector has size %zu and capacity %zu", nm, what, t.c->size(), t.c->capacity());
        t.resv = 0; t.m.clear(); t.c->clear(); for (size_t i = r.below(4); i--;) { int64_t v = nv(); t.c->push_back(E<T>::make(v)); t.m.push_back(v); }
        check(t, what);
    }
    template<class L> void copy_op(unsigned k, S& s, S& t, L& log, const char*& what) {
        V& c = *s.c; auto& m = s.m; size_t n = m.size(); auto at = [&](size_t p) { return c.cbegin() + std::ptrdiff_t(p); };
        switch (k) {
        case 24: case 25: { int64_t v = nv(); log("push_back", size_t(v)); const T e = E<T>::make(v); auto q = room(s, 1); c.push_back(e); m.push_back(v); kept(s, q, what); VCHECK(E<T>::get(e) == v, "argument", "[%s] push_back changed its argument", nm); break; }
        case 26: { if (!n) break; size_t i = elem(s); log("push_back-own", i); auto q = room(s, 1); c.push_back(c[i]); m.push_back(m[i]); kept(s, q, what); break; }
        case 27: { if (!n) break; size_t i = elem(s); log("emplace_back-own", i); auto q = room(s, 1); c.emplace_back(c[i]); m.push_back(m[i]); kept(s, q, what); break; }
        case 28: { size_t p = pos(s); int64_t v = nv(); log("insert", p, size_t(v)); const T e = E<T>::make(v); auto q = room(s, 1); auto it = c.insert(at(p), e); m.insert(m.begin() + std::ptrdiff_t(p), v); ret(s, it, p, what); kept(s, q, what); break; }
        case 29: { if (!n) break; size_t p = pos(s), i = elem(s); log("insert-own", p, i); int64_t v = m[i]; auto q = room(s, 1); auto it = c.insert(at(p), c[i]); m.insert(m.begin() + std::ptrdiff_t(p), v); ret(s, it, p, what); kept(s, q, what); break; }
        case 30: { if (!n) break; size_t p = pos(s), i = elem(s); log("emplace-own", p, i); int64_t v = m[i]; auto q = room(s, 1); auto it = c.emplace(at(p), c[i]); m.insert(m.begin() + std::ptrdiff_t(p), v); ret(s, it, p, what); kept(s, q, what); break; }
        case 31: case 32: { size_t p = pos(s), z = len(c); int64_t v = nv(); log("insert-n", p, z); const T e = E<T>::make(v); auto q = room(s, z); auto it = c.insert(at(p), z, e); m.insert(m.begin() + std::ptrdiff_t(p), z, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 33: { if (!n) break; size_t p = pos(s), z = len(c), i = elem(s); log("insert-n-own", p, z * 64 + i); int64_t v = m[i]; auto q = room(s, z); auto it = c.insert(at(p), z, c[i]); m.insert(m.begin() + std::ptrdiff_t(p), z, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 34: { size_t p = pos(s); auto v = nums(len(c)); log("insert-range", p, v.size()); auto src = elems(v); auto q = room(s, v.size()); typename V::iterator it; unsigned w = unsigned(r.below(3)); if (w == 0) it = c.insert(at(p), src.data(), src.data() + src.size()); else if (w == 1) it = c.insert(at(p), src.begin(), src.end()); else { std::list<T> l(src.begin(), src.end()); it = c.insert(at(p), l.begin(), l.end()); } move_in(m, p, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 35: { size_t p = pos(s); auto v = nums(3); log("insert-list", p); auto q = room(s, 3); auto it = c.insert(at(p), { E<T>::make(v[0]), E<T>::make(v[1]), E<T>::make(v[2]) }); move_in(m, p, v); ret(s, it, p, what); kept(s, q, what); break; }
        case 36: { size_t z = r.chance(60) ? n + len(c) : r.below(n + 1); int64_t v = nv(); auto q = room(s, z > n ? z - n : 0); if (n && r.chance(40)) { size_t i = elem(s); log("resize-own", z, i); v = m[i]; c.resize(z, c[i]); } else { log("resize-value", z); const T e = E<T>::make(v); c.resize(z, e); } m.resize(z, v); kept(s, q, what); break; }
        case 37: { size_t z = r.chance(50) ? n + len(c) : r.below(n + 1); int64_t v = nv(); if (n && r.chance(40)) { size_t i = elem(s); log("assign-n-own", z, i); v = m[i]; c.assign(z, c[i]); } else { log("assign-n", z); const T e = E<T>::make(v); c.assign(z, e); } m.assign(z, v); break; }
        case 38: { auto v = nums(r.chance(50) ? n + len(c) : r.below(n + 1)); log("assign-range", v.size()); auto src = elems(v); unsigned w = unsigned(r.below(4)); if (w == 0) c.assign(src.data(), src.data() + src.size()); else if (w == 1) { std::list<T> l(src.begin(), src.end()); c.assign(l.begin(), l.end()); } else if (w == 2) c.assign(std::make_move_iterator(src.data()), std::make_move_iterator(src.data() + src.size())); else c.assign((const T*)src.data(), (const T*)src.data() + src.size()); m = v; break; }
        case 39: { auto v = nums(3); log("assign-list"); if (r.chance(50)) c.assign({ E<T>::make(v[0]), E<T>::make(v[1]), E<T>::make(v[2]) }); else c = { E<T>::make(v[0]), E<T>::make(v[1]), E<T>::make(v[2]) }; m = v; break; }
        case 40: case 41: { if (&s == &t) { log("self-assign"); V& alias = c; c = alias; break; } log("copy-assign", size_t(&t - ss.data())); if (AT::propagate_on_container_copy_assignment::value) { if (s.id != t.id) s.resv = 0; s.id = t.id; } auto& x = (c = *t.c); VCHECK(&x == &c, "returned-reference", "[%s] operator= returned something else", nm); m = t.m; VCHECK(c == *t.c && (c.empty() || c.data() != t.c->data()), "copy", "[%s] a copy is not equal to, or not independent of, its source", nm); break; }
        case 42: { if (&s == &t) break; int id = STD ? 0 : int(r.below(3)); log("copy-construct", size_t(id)); if (r.chance(50)) { s.c = std::make_unique<V>(*t.c); s.id = t.id; } else { s.c = std::make_unique<V>(*t.c, mka<A>(id)); s.id = id; } m = t.m; s.resv = 0; VCHECK(*s.c == *t.c, "copy", "[%s] a copy is not equal to its source", nm); break; }
        case 43: { size_t z = len(); int64_t v = nv(); log("construct(n,v)", z); s.id = STD ? 0 : int(r.below(3)); if (r.chance(70)) { const T e = E<T>::make(v); s.c = std::make_unique<V>(z, e, mka<A>(s.id)); m.assign(z, v); } else { auto w = nums(2); s.c = std::make_unique<V>(std::initializer_list<T>{ E<T>::make(w[0]), E<T>::make(w[1]) }, mka<A>(s.id)); m = w; } s.resv = 0; break; }
        }
    }
};

template<class T, class A> void model_case(Rng& r, const char* nm) {
    {
        VW<T, A> w(r, nm);
        size_t n = r.pick<size_t>({ 20, 60, 150 });
        for (size_t i = 0; i < n; ++i) w.op();
    }
    check_no_leaks(nm);
}

// ------------------------------------------------------------------ growth
template<class T> void grow_case(Rng& r, const char* nm) {
    {
        gtl::vector<T> v; size_t n = r.pick<size_t>({ 100, 3000, 40000 }), re = 0, moved = 0; const T* d = nullptr; int how = int(r.below(3)); oplog().add(nm, n, size_t(how)); oplog().add("grow"); oplog().add("grow");
        for (size_t i = 0; i < n; ++i) {
            if (how == 0) v.push_back(E<T>::make(int64_t(i % 100))); else if (how == 1) v.emplace_back(E<T>::make(int64_t(i % 100))); else v.insert(v.end(), E<T>::make(int64_t(i % 100)));
            if (v.data() != d) { ++re; moved += i; d = v.data(); }
        }
        stat_max("max_reallocations", re); cnt("grown_elements") += n;
        VCHECK(re <= 60 && moved <= 4 * n + 64, "growth", "[%s] appending %zu elements reallocated %zu times and moved %zu elements", nm, n, re, moved);
        VCHECK(v.capacity() * sizeof(T) <= 2 * n * sizeof(T) + 256, "growth", "[%s] %zu elements have capacity %zu", nm, n, v.capacity());
        for (size_t i = 0; i < n; ++i) VCHECK(E<T>::get(v[i]) == int64_t(i % 100), "contents", "[%s] element %zu is wrong after growth", nm, i);
    }
    check_no_leaks(nm);
}

// ------------------------------------------------------------------ fault injection (P16)
template<class T, class A> void fault_case(Rng& r, const char* nm) {
    using V = gtl::vector<T, A>; using AT = std::allocator_traits<A>;
    constexpr bool STD = std::is_same_v<A, std::allocator<T>>; constexpr bool COPY = std::is_copy_constructible_v<T>; constexpr bool NTM = std::is_nothrow_move_constructible_v<T>;
    {
        unsigned k = unsigned(r.below(COPY ? 22 : 12));
        std::vector<int64_t> init, add; size_t extra = r.below(10), n0 = r.below(10), na = r.pick<size_t>({ 0, 1, 2, 3, 5, 9, 17 });
        for (size_t i = 0; i < n0; ++i) init.push_back(int64_t(i + 1)); for (size_t i = 0; i < na; ++i) add.push_back(int64_t(i + 501));
        size_t cap = r.chance(40) ? n0 : n0 + extra, p = r.below(n0 + 1), e = r.below(n0 + 1), own = n0 ? r.below(n0) : 0; int id2 = int(r.below(2)); if (k == 8) p = n0;
        std::vector<T> none; std::unique_ptr<V> c, o; std::vector<T> src; bool strong = false; const char* what = "";
        auto build = [&] { c = std::make_unique<V>(mka<A>(0)); c->reserve(cap); for (auto v : init) c->push_back(E<T>::make(v)); o = std::make_unique<V>(mka<A>(STD ? 0 : id2)); for (auto v : add) o->push_back(E<T>::make(v)); src.clear(); src.reserve(add.size() + 1); for (auto v : add) src.push_back(E<T>::make(v)); src.push_back(E<T>::make(99)); };
        auto run = [&]() { V& x = *c; auto at = [&](size_t q) { return x.cbegin() + std::ptrdiff_t(q); }; auto mb = std::make_move_iterator(src.begin()), me = std::make_move_iterator(src.end() - 1);
            switch (k) {
            case 0: what = "push_back&&"; strong = COPY || NTM; x.push_back(std::move(src.back())); break;
            case 1: what = "emplace_back"; strong = COPY || NTM; if constexpr (std::is_constructible_v<T, int64_t>) x.emplace_back(int64_t(7)); else x.emplace_back(); break;
            case 2: what = "reserve"; strong = COPY || NTM; x.reserve(cap + na + 1); break;
            case 3: what = "resize"; strong = COPY || NTM; x.resize(n0 + na); break;
            case 4: what = "insert&&"; x.insert(at(p), std::move(src.back())); break;
            case 5: what = "emplace"; if constexpr (std::is_constructible_v<T, int64_t>) x.emplace(at(p), int64_t(7)); else x.emplace(at(p)); break;
            case 6: what = "insert-move-range"; x.insert(at(p), mb, me); break;
            case 7: what = "insert-input"; { InSrc<T> s{ &add }; x.insert(at(p), InIt<T>{ &s, 0 }, InIt<T>{ nullptr, 0 }); } break;
            case 8: what = "assign-input"; { InSrc<T> s{ &add }; x.assign(InIt<T>{ &s, 0 }, InIt<T>{ nullptr, 0 }); } break;
            case 9: what = "erase"; x.erase(at(std::min(p, e)), at(std::max(p, e))); break;
            case 10: what = "move-assign"; x = std::move(*o); break;
            case 11: what = "construct"; { if (r.s & 1) { V y(na, mka<A>(0)); } else { InSrc<T> s{ &add }; V y(InIt<T>{ &s, 0 }, InIt<T>{ nullptr, 0 }, mka<A>(0)); } V z(std::move(*o), mka<A>(0)); } break;
            default: if constexpr (COPY) switch (k) {
                case 12: what = "push_back"; strong = true; x.push_back(src.back()); break;
                case 13: what = "push_back-own"; if (n0) { strong = true; x.push_back(x[own]); } break;
                case 14: what = "resize-value"; strong = true; if (n0 && na & 1) x.resize(n0 + na, x[own]); else x.resize(n0 + na, src.back()); break;
                case 15: what = "insert"; x.insert(at(p), n0 && na & 1 ? x[own] : src.back()); break;
                case 16: what = "insert-n"; x.insert(at(p), na, n0 && own & 1 ? x[own] : src.back()); break;
                case 17: what = "insert-range"; x.insert(at(p), src.data(), src.data() + na); break;
                case 18: what = "assign-n"; x.assign(na, n0 && own & 1 ? x[own] : src.back()); break;
                case 19: what = "assign-range"; if (own & 1) x.assign(src.data(), src.data() + na); else x.assign(src.begin(), src.end() - 1); break;
                case 20: what = "copy-assign"; x = *o; break;
                case 21: what = "copy-construct"; { V y(*o); V z(*o, mka<A>(1)); V w(na, src.back(), mka<A>(1)); } break;
                } break;
            } };
        build(); uint64_t before[F_NKINDS]; std::copy(std::begin(g_events), std::end(g_events), before);
        run(); uint64_t evs[F_NKINDS]; for (int f = 0; f < F_NKINDS; ++f) evs[f] = g_events[f] - before[f]; oplog().add(what, n0 * 100 + na, p * 100 + cap); oplog().add("capacity", cap, e); oplog().add("own", own, size_t(id2));
        for (int f : { F_CTOR, F_ASSIGN, F_ALLOC, F_CALL }) {
            uint64_t ev = evs[f];
            for (uint64_t i = 1; i <= ev; ++i) {
                build(); arm(FaultKind(f), long(i)); bool thrown = false; const T* d = c->data(); size_t cp = c->capacity();
                try { run(); } catch (const Fault&) { thrown = true; }
                disarm(); cnt("faults_armed")++;
                if (!thrown) continue; // another path, or a fault swallowed where documented (shrink)
                cnt("faults_thrown")++; V& x = *c;
                VCHECK(x.capacity() >= x.size() && size_t(x.end() - x.begin()) == x.size(), "fault-valid", "[%s] %s, fault %d.%llu: size %zu, capacity %zu", nm, what, f, (unsigned long long)i, x.size(), x.capacity());
                if (strong) { cnt("strong_checks")++; VCHECK(x.size() == n0, "fault-strong", "[%s] %s, fault %d.%llu: size is %zu, was %zu", nm, what, f, (unsigned long long)i, x.size(), n0); for (size_t j = 0; j < n0; ++j) VCHECK(E<T>::get(x[j]) == init[j], "fault-strong", "[%s] %s, fault %d.%llu: element %zu changed", nm, what, f, (unsigned long long)i, j); }
                else for (size_t j = 0; j < x.size(); ++j) { if constexpr (requires { x[j].check(""); }) x[j].check("reading after a fault"); else if constexpr (requires { x[j].o.check(""); }) x[j].o.check("reading after a fault"); else if constexpr (std::is_same_v<T, std::string>) cnt("bytes") += x[j].size(); }
                // still usable
                x.clear(); for (int64_t v = 0; v < 12; ++v) x.push_back(E<T>::make(v)); x.insert(x.cbegin() + 3, E<T>::make(77)); x.erase(x.cbegin());
                VCHECK(x.size() == 12 && E<T>::get(x[2]) == 77 && E<T>::get(x[11]) == 11, "fault-usable", "[%s] %s, fault %d.%llu: the vector misbehaves afterwards", nm, what, f, (unsigned long long)i);
                (void)d; (void)cp;
            }
        }
        // shrink_to_fit swallows failures and keeps everything
        build(); if constexpr (!STD) { arm(F_ALLOC, 1); c->shrink_to_fit(); disarm(); VCHECK(c->size() == n0, "shrink", "[%s] a failing shrink_to_fit changed the vector", nm); for (size_t j = 0; j < n0; ++j) VCHECK(E<T>::get((*c)[j]) == init[j], "shrink", "[%s] a failing shrink_to_fit changed the vector", nm); }
        if constexpr (COPY) { build(); arm(F_CTOR, long(1 + r.below(n0 + 1))); c->shrink_to_fit(); disarm(); VCHECK(c->size() == n0, "shrink", "[%s] a failing shrink_to_fit changed the vector", nm); for (size_t j = 0; j < n0; ++j) VCHECK(E<T>::get((*c)[j]) == init[j], "shrink", "[%s] a failing shrink_to_fit changed the vector", nm); }
    }
    check_no_leaks(nm);
}

using TObj = ObjT<false>;
struct MThrow { TObj o; MThrow(int64_t v = 0) : o(v) {} MThrow(MThrow&&) = default; MThrow& operator=(MThrow&&) = default; };
template<> struct E<MThrow> { static MThrow make(int64_t v) { return MThrow(v); } static int64_t get(const MThrow& t) { return t.o.get(); } };
inline bool operator==(const MThrow& a, const MThrow& b) { return a.o == b.o; }
inline bool operator<(const MThrow& a, const MThrow& b) { return a.o < b.o; }
template<class T> using SA = std::allocator<T>;
template<class T> using A1 = TAlloc<T>;
template<class T> using A2 = TAlloc<T, true, true, true>;
template<class T> using A3 = TAlloc<T, true, false, false>;
template<class T> using A4 = TAlloc<T, false, true, false>;

void c_model(Rng& r, uint64_t i) {
#if CFG == 0
    switch (i % 7) {
    case 0: return model_case<int, SA<int>>(r, "vector<int>");
    case 1: return model_case<Obj, SA<Obj>>(r, "vector<Obj>");
    case 2: return model_case<std::string, SA<std::string>>(r, "vector<string>");
    case 3: return model_case<Pod24, SA<Pod24>>(r, "vector<Pod24>");
    case 4: return model_case<MOnly, SA<MOnly>>(r, "vector<move-only>");
    case 5: return model_case<TObj, SA<TObj>>(r, "vector<throwing-move>");
    case 6: return model_case<uint8_t, SA<uint8_t>>(r, "vector<uint8>");
    }
#else
    switch (i % 7) {
    case 0: return model_case<int64_t, A1<int64_t>>(r, "vector<int64,alloc>");
    case 1: return model_case<Obj, A1<Obj>>(r, "vector<Obj,alloc>");
    case 2: return model_case<Obj, A2<Obj>>(r, "vector<Obj,propagating alloc>");
    case 3: return model_case<std::string, A3<std::string>>(r, "vector<string,POCCA>");
    case 4: return model_case<MOnly, A4<MOnly>>(r, "vector<move-only,POCMA>");
    case 5: return model_case<Pod24, A2<Pod24>>(r, "vector<Pod24,propagating alloc>");
    case 6: return model_case<Over, SA<Over>>(r, "vector<over-aligned>");
    }
#endif
}
void c_grow(Rng& r, uint64_t i) {
    switch (i % 5) {
    case 0: return grow_case<int>(r, "vector<int>"); case 1: return grow_case<Obj>(r, "vector<Obj>"); case 2: return grow_case<Pod24>(r, "vector<Pod24>"); case 3: return grow_case<uint8_t>(r, "vector<uint8>"); case 4: return grow_case<Over>(r, "vector<over-aligned>");
    }
}
void c_fault(Rng& r, uint64_t i) {
    // value-initialised members of any type
    if (i % 50 == 0) { struct Z { int a, b; }; gtl::vector<int Z::*> m(3); m.resize(5); for (auto p : m) VCHECK(p == nullptr, "value-init", "a value-initialised pointer to member is not null"); gtl::vector<double> d(4); gtl::vector<void*> q(4); gtl::vector<bool> b(4); for (auto x : d) VCHECK(x == 0, "value-init", "double not zero"); for (auto x : q) VCHECK(x == nullptr, "value-init", "pointer not null"); for (auto x : b) VCHECK(!x, "value-init", "bool not false"); }
#if CFG == 0
    switch (i % 3) { case 0: return fault_case<Obj, SA<Obj>>(r, "vector<Obj>"); case 1: return fault_case<TObj, SA<TObj>>(r, "vector<throwing-move>"); case 2: return fault_case<MOnly, SA<MOnly>>(r, "vector<move-only>"); }
#else
    switch (i % 6) { case 0: return fault_case<Obj, A1<Obj>>(r, "vector<Obj,alloc>"); case 1: return fault_case<TObj, A1<TObj>>(r, "vector<throwing-move,alloc>"); case 2: return fault_case<MOnly, A1<MOnly>>(r, "vector<move-only,alloc>"); case 3: return fault_case<Obj, A2<Obj>>(r, "vector<Obj,propagating alloc>"); case 4: return fault_case<std::string, A1<std::string>>(r, "vector<string,alloc>"); case 5: return fault_case<MThrow, A1<MThrow>>(r, "vector<throwing move-only,alloc>"); }
#endif
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "model", c_model }, { "value", c_model }, { "grow", c_grow }, { "fault", c_fault } }); }
