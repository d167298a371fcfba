// P22: scope guards, value setters, timestamps, binary search, vector helpers, combinators.
#include "common.hpp"
#include <gtl/adv_utils.hpp>
#include <gtl/combinators.hpp>
#include <sstream>
#include <gtl/stopwatch.hpp>
#include <gtl/utils.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/vector.hpp>
#include <cmath>
#include <deque>
#include <limits>
using namespace vf;
struct Stop {};

// ------------------------------------------------------------------ nested scopes, left in every way
struct Scopes {
    Rng& r; std::string s = "start"; int n = 0; Obj o{ 5 };
    // returns by exception with some probability; the model runs along
    void scope(int depth) {
        if (depth == 0) { if (r.chance(40)) { oplog().add("throw"); throw Stop(); } return; }
        int kind = int(r.below(10)); bool do_it = !r.chance(20), dis = r.chance(20); int id = int(r.below(1000)); oplog().add("scope", uint64_t(kind), uint64_t(do_it * 2 + dis)); std::string tag = std::to_string(id);
        switch (kind) {
        case 0: { int dcalls = 0; bool dismissed = false, thrown = false; auto fn = [&] { ++dcalls; };
            try { gtl::scoped_guard g(std::move(fn), do_it); VCHECK(dcalls == 0, "early", "a guard ran before the end of its scope"); scope(depth - 1); VCHECK(dcalls == 0, "early", "a guard ran before the end of its scope"); if (dis) { g.dismiss(); dismissed = true; if (r.chance(50)) scope(depth - 1); } } catch (const Stop&) { thrown = true; }
            VCHECK(dcalls == (do_it && !dismissed ? 1 : 0), "guard", "a guard (enabled %d, dismissed %d, exception %d) ran %d times", do_it, dismissed, thrown, dcalls); cnt("guards")++; if (thrown) throw Stop(); break; }
        case 1: { int sets = 0, unsets = 0; bool dismissed = false, thrown = false; try { gtl::scoped_set_unset g([&] { ++sets; }, [&] { ++unsets; }, do_it); VCHECK(sets == (do_it ? 1 : 0) && unsets == 0, "set", "the set function ran %d times", sets); scope(depth - 1); VCHECK(unsets == 0, "early", "the unset function ran early"); if (dis) { g.dismiss(); dismissed = true; if (r.chance(50)) scope(depth - 1); } } catch (const Stop&) { thrown = true; }
            VCHECK(sets == (do_it ? 1 : 0) && unsets == (do_it && !dismissed ? 1 : 0), "unset", "set ran %d and unset %d times (enabled %d, dismissed %d, exception %d)", sets, unsets, do_it, dismissed, thrown); cnt("guards")++; if (thrown) throw Stop(); break; }
        case 2: value(s, std::string("a longer string, number " + tag), do_it, dis, depth); break;
        case 3: value(n, id, do_it, dis, depth); break;
        case 4: value(o, int64_t(id), do_it, dis, depth); break;
        case 5: { auto u = std::make_unique<int>(id + 1); int* old = u.get(); int oldv = u ? *u : -1; bool dismissed = false, thrown = false; int* nw = nullptr; try { auto p = std::make_unique<int>(id); nw = p.get(); gtl::scoped_set_value<std::unique_ptr<int>> g(u, std::move(p), do_it); VCHECK(do_it ? u.get() == nw : u.get() == old, "value", "a pointer was not set"); scope(depth - 1); VCHECK(u.get() == (do_it ? nw : old), "value", "a pointer changed during the scope"); if (dis) { g.dismiss(); dismissed = true; } } catch (const Stop&) { thrown = true; }
            if (do_it && dismissed) VCHECK(u.get() == nw, "restore", "a dismissed setter restored a value"); else VCHECK(u.get() == old && (!u || *u == oldv), "restore", "a pointer was not restored"); cnt("values")++; if (thrown) throw Stop(); break; }
        case 6: { // order: guards run in reverse order of construction
            std::vector<int> ord; bool thrown = false; try { gtl::scoped_guard a([&] { ord.push_back(1); }); gtl::scoped_guard b([&] { ord.push_back(2); }); gtl::scoped_set_unset c([&] { ord.push_back(0); }, [&] { ord.push_back(3); }); scope(depth - 1); } catch (const Stop&) { thrown = true; } VCHECK((ord == std::vector<int>{ 0, 3, 2, 1 }), "order", "guards did not run in reverse order"); if (thrown) throw Stop(); break; }
        case 7: { // the set function throws: nothing was set, unset must not run
            int unsets = 0; bool thrown = false; try { gtl::scoped_set_unset g([&]() { throw Stop(); }, [&] { ++unsets; }, do_it); } catch (const Stop&) { thrown = true; } VCHECK(thrown == do_it && unsets == 0, "unset", "the unset function ran although the set function failed"); break; }
        case 8: { // defaults: enabled
            int calls = 0, sets = 0, unsets = 0, x = id; bool thrown = false; std::string t = tag; struct RvalueOnly { int& n; void operator()() && { ++n; } };
            try { auto fn = [&] { ++calls; }; gtl::scoped_guard g(std::move(fn)); gtl::scoped_set_value v(x, id + 1); gtl::scoped_set_value<std::string> w(t, "other"); gtl::scoped_set_unset u(RvalueOnly{ sets }, [&] { ++unsets; }); VCHECK(x == id + 1 && t == "other" && sets == 1 && calls == 0 && unsets == 0, "default", "a guard is not enabled by default"); scope(depth - 1); } catch (const Stop&) { thrown = true; }
            VCHECK(x == id && t == tag && sets == 1 && unsets == 1 && calls == 1, "default", "a guard is not enabled by default: calls %d, set %d, unset %d", calls, sets, unsets); cnt("guards") += 4; if (thrown) throw Stop(); break; }
        case 9: { // guards can be neither copied nor moved: the action would run twice
            using G = decltype(gtl::scoped_guard([] {})); using U = decltype(gtl::scoped_set_unset([] {}, [] {})); using V = gtl::scoped_set_value<int>;
            VCHECK(!std::is_copy_constructible_v<G> && !std::is_move_constructible_v<G> && !std::is_copy_constructible_v<U> && !std::is_move_constructible_v<U> && !std::is_copy_constructible_v<V> && !std::is_move_constructible_v<V> && !std::is_copy_assignable_v<V> && !std::is_move_assignable_v<V>, "copy", "a guard can be copied, so that its action runs twice");
            scope(depth - 1); break; }
        }
    }
    template<class T, class V> void value(T& var, V val, bool do_it, bool dis, int depth) {
        T old = var; T nv(val); bool dismissed = false, thrown = false;
        try { if (r.chance(50)) { gtl::scoped_set_value<T> g(var, val, do_it); VCHECK(var == (do_it ? nv : old), "value", "a value was not set"); scope(depth - 1); VCHECK(var == (do_it ? nv : old), "value", "a value was not there during the scope"); if (dis) { g.dismiss(); dismissed = true; } }
              else { gtl::scoped_set_value<T> g(var, V(val), do_it); VCHECK(var == (do_it ? nv : old), "value", "a value was not set"); scope(depth - 1); if (do_it && r.chance(30)) var = old; /* whatever happens inside */ if (dis && var == nv) { g.dismiss(); dismissed = true; } } } catch (const Stop&) { thrown = true; }
        if (do_it && dismissed) VCHECK(var == nv, "restore", "a dismissed setter restored a value"); else VCHECK(var == old, "restore", "a value was not restored (enabled %d, dismissed %d, exception %d)", do_it, dismissed, thrown);
        var = old; cnt("values")++; if (thrown) throw Stop();
    }
};
void c_scopes(Rng& r, uint64_t) { { Scopes s{ r }; try { s.scope(int(r.range(1, 5))); } catch (const Stop&) {} VCHECK(s.s == "start" && s.n == 0 && s.o.get() == 5, "restore", "values were not restored"); } VCHECK(g_live == 0, "leak", "elements leaked"); }

// ------------------------------------------------------------------ change, replace, timestamps
struct Timed : gtl::provides_timestamp<Timed> { gtl::timestamp ts; gtl::timestamp get_timestamp() const { return ts; } };
struct Model : gtl::timestamp { int x = 0; std::string s; bool setx(int v) { return set_with_ts(x, v); } bool sets(const std::string& v) { return set_with_ts(s, v); } };
void c_values(Rng& r, uint64_t) {
    { std::string s; Obj o(0); int n = 0; int64_t ov = 0; constexpr size_t N = 5; std::vector<gtl::timestamp> ts; std::vector<Timed> td; std::vector<Model> md; std::vector<uint64_t> mt, mtd, mmd; uint64_t now = 1;
      // model: time of the last touch, 0 when reset
      for (size_t i = 0; i < N; ++i) { ts.emplace_back(); mt.push_back(now++); td.emplace_back(); mtd.push_back(now++); md.emplace_back(); mmd.push_back(now++); }
      for (int it = 0; it < 60; ++it) {
        size_t i = r.below(N), j = r.below(N); int v = int(r.below(4)); unsigned op = unsigned(r.below(16)); oplog().add("op", op, i * 16 + j);
        switch (op) {
        case 0: { std::string w = "some rather long string " + std::to_string(v); bool ch = s != w; bool g = gtl::change(s, w); VCHECK(g == ch && s == w && w == "some rather long string " + std::to_string(v), "change", "change of a string returned %d", g); break; }
        case 1: { bool ch = n != v; VCHECK(gtl::change(n, v) == ch && n == v, "change", "change of an int"); bool ch2 = ov != v; bool g = gtl::change(o, Obj(v)); ov = v; VCHECK(g == ch2 && o.get() == ov, "change", "change of an object"); break; }
        case 2: { std::string old = s, w = "replacement with a longer text " + std::to_string(v); std::string g = r.chance(50) ? gtl::replace(s, w) : gtl::replace(s, std::string(w)); VCHECK(g == old && s == w, "replace", "replace of a string"); int on = n; VCHECK(gtl::replace(n, v) == on && n == v, "replace", "replace of an int"); Obj oo = gtl::replace(o, Obj(v)); VCHECK(oo.get() == ov && o.get() == v, "replace", "replace of an object"); ov = v; break; }
        case 14: { auto u = std::make_unique<int>(v); int* p = u.get(); auto w = std::make_unique<int>(v + 1); int* q = w.get(); auto old = gtl::replace(u, std::move(w)); VCHECK(old.get() == p && u.get() == q && *old == v && *u == v + 1, "replace", "replace of a pointer"); VCHECK(u.get() == q, "replace", "replace of a pointer"); VCHECK(gtl::change(u, std::move(old)) && u.get() == p && !old, "change", "change of a pointer"); break; }
        case 15: { struct C { int v; int copies; C(int x) : v(x), copies(0) {} C(const C& o) : v(o.v), copies(o.copies + 1) {} C(C&& o) noexcept : v(o.v), copies(o.copies) {} C& operator=(const C& o) { v = o.v; copies = o.copies + 1; return *this; } C& operator=(C&& o) noexcept { v = o.v; copies = o.copies; return *this; } bool operator!=(const C& o) const { return v != o.v; } };
            C a(v), b(v + 1); C old = gtl::replace(a, std::move(b)); VCHECK(old.v == v && a.v == v + 1 && old.copies == 0 && a.copies == 0, "replace", "replace copies an element that it was given to move"); C d(v + 2); VCHECK(gtl::change(a, std::move(d)) && a.v == v + 2 && a.copies == 0, "change", "change copies"); C e(v + 3); VCHECK(gtl::change(a, e) && a.v == v + 3 && e.v == v + 3, "change", "change of a copy"); break; }
        case 3: ts[i].touch(); mt[i] = now++; break;
        case 4: ts[i].touch(ts[j]); mt[i] = mt[j]; break;
        case 5: ts[i].reset(); mt[i] = 0; break;
        case 6: td[i].ts.touch(); mtd[i] = now++; break;
        case 7: { bool ch = md[i].x != v; VCHECK(md[i].setx(v) == ch && md[i].x == v, "set_with_ts", "set_with_ts returned the wrong answer"); if (ch) mmd[i] = now++; break; }
        case 8: { std::string w = std::to_string(v); bool ch = md[i].s != w; VCHECK(md[i].sets(w) == ch && md[i].s == w, "set_with_ts", "set_with_ts of a string"); if (ch) mmd[i] = now++; break; }
        case 9: ts[i] |= ts[j]; mt[i] = std::max(mt[i], mt[j]); break;
        case 10: ts[i] = ts[j] | ts[r.below(1) ? i : j]; mt[i] = mt[j]; break;
        case 11: ts[i] = td[i] | td[j]; mt[i] = std::max(mtd[i], mtd[j]); break;
        case 12: ts[i] = gtl::timestamp(); mt[i] = now++; break;
        case 13: ts[i] = md[j].get_timestamp(); mt[i] = mmd[j]; break;
        }
        for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) {
            VCHECK(ts[a].is_newer_than(ts[b]) == (mt[a] > mt[b]) && ts[a].is_older_than(ts[b]) == (mt[a] < mt[b]) && (ts[a] == ts[b]) == (mt[a] == mt[b]) && (ts[a] < ts[b]) == (mt[a] < mt[b]) && (ts[a] > ts[b]) == (mt[a] > mt[b]), "timestamp", "timestamps do not order by the time of their touch");
            VCHECK(td[a].is_newer_than(td[b]) == (mtd[a] > mtd[b]) && td[a].is_older_than(td[b]) == (mtd[a] < mtd[b]), "timestamp", "provides_timestamp does not order by time");
            VCHECK(td[a].is_newer_than(md[b]) == (mtd[a] > mmd[b]) && td[a].is_older_than(md[b]) == (mtd[a] < mmd[b]) && md[a].is_newer_than(md[b]) == (mmd[a] > mmd[b]), "timestamp", "timestamps of different classes do not order by time");
            VCHECK((ts[a] | ts[b]) == (mt[a] > mt[b] ? ts[a] : ts[b]), "timestamp", "| does not return the most recent"); cnt("comparisons") += 4;
        }
        VCHECK(ts[i].is_set() == (mt[i] != 0) && (ts[i].get() != 0) == (mt[i] != 0), "timestamp", "is_set");
      } }
    VCHECK(g_live == 0, "leak", "elements leaked");
}

// ------------------------------------------------------------------ binary search
template<class T> T anyint(Rng& r) { using L = std::numeric_limits<T>; switch (r.below(6)) { case 0: return L::min(); case 1: return L::max(); case 2: return T(L::min() + T(r.below(5))); case 3: return T(L::max() - T(r.below(5))); case 4: return T(r.below(10)); default: return T(r.next()); } }
template<class T> void search_int(Rng& r, const char* nm) {
    T l = anyint<T>(r), h = anyint<T>(r); if (l == h) { if (h == std::numeric_limits<T>::max()) --l; else ++h; } if (l > h) std::swap(l, h);
    // first true value: in (l, h]
    using U = std::make_unsigned_t<T>; U span = U(U(h) - U(l)); U off = r.chance(30) ? U(1) : r.chance(30) ? span : U(1 + r.next() % uint64_t(span)); T t = T(U(l) + off); oplog().add(nm, uint64_t(U(l)), uint64_t(U(h))); oplog().add("threshold", uint64_t(off)); unsigned calls = 0;
    auto pred = [&](T x) { ++calls; VCHECK(x >= l && x <= h, "range", "[%s] the predicate was called outside the range", nm); return x >= t; };
    auto g = gtl::binary_search<T>(gtl::middle<T>(), pred, l, h);
    VCHECK(g.second == t && U(g.first) == U(U(t) - U(1)), "search", "[%s] search for %lld in [%lld, %lld] returned (%lld, %lld)", nm, (long long)t, (long long)l, (long long)h, (long long)g.first, (long long)g.second);
    VCHECK(calls <= 400, "search", "[%s] %u calls of the predicate", nm, calls); cnt("searches")++; cnt("predicate_calls") += calls;
    auto m = gtl::middle<T>()(l, h); if (m) VCHECK(*m > l && *m < h, "middle", "[%s] middle is not strictly inside", nm); else VCHECK(span == U(1), "middle", "[%s] no middle of a range of more than one", nm);
}
static double anydbl(Rng& r) { using L = std::numeric_limits<double>; double d; switch (r.below(9)) { case 0: d = 0; break; case 1: d = -0.0; break; case 2: d = L::denorm_min() * double(1 + r.below(4)); break; case 3: d = L::max(); break; case 4: d = L::infinity(); break; case 5: d = L::min(); break; case 6: d = double(int64_t(r.below(2000)) - 1000); break; default: { uint64_t b = r.next() & 0x7fffffffffffffffull; memcpy(&d, &b, 8); if (std::isnan(d)) d = 1.5; } } return r.chance(50) ? -d : d; }
void search_dbl(Rng& r) {
    double l = anydbl(r), h = anydbl(r); if (l == h) h = std::nextafter(h, INFINITY) , l = std::nextafter(l, -INFINITY); if (l > h) std::swap(l, h); if (!(l < h)) return;
    double t = r.chance(40) ? anydbl(r) : r.chance(50) ? std::nextafter(l, INFINITY) : h; if (!(t > l && t <= h)) t = h; uint64_t bl, bh, bt; memcpy(&bl, &l, 8); memcpy(&bh, &h, 8); memcpy(&bt, &t, 8); oplog().add("double", bl, bh); oplog().add("threshold", bt); unsigned calls = 0;
    auto pred = [&](double x) { ++calls; VCHECK(x >= l && x <= h, "range", "[double] the predicate was called with %g, outside [%g, %g]", x, l, h); return x >= t; };
    auto g = gtl::binary_search<double>(gtl::middle<double>(), pred, l, h);
    VCHECK(g.second == t && g.first == std::nextafter(t, -INFINITY), "search", "[double] search for %.17g in [%.17g, %.17g] returned (%.17g, %.17g)", t, l, h, g.first, g.second); VCHECK(calls <= 400, "search", "[double] %u calls", calls); cnt("searches")++;
}
void c_search(Rng& r, uint64_t) {
    search_int<int>(r, "int"); search_int<unsigned>(r, "unsigned"); search_int<int64_t>(r, "int64"); search_int<uint64_t>(r, "uint64"); search_int<int8_t>(r, "int8"); search_int<uint8_t>(r, "uint8"); search_int<int16_t>(r, "int16"); search_int<uint16_t>(r, "uint16"); search_dbl(r); search_dbl(r);
    // other middle function, other type: a sorted sequence through its iterators
    std::vector<int> v(r.range(2, 60)); for (auto& x : v) x = int(r.below(100)); std::sort(v.begin(), v.end()); int key = int(r.below(102)) - 1; if (v.front() < key && v.back() >= key) { using It = std::vector<int>::const_iterator; auto mid = [](It a, It b) -> std::optional<It> { if (b - a > 1) return a + (b - a) / 2; return {}; }; auto g = gtl::binary_search<It>(mid, [&](It i) { return *i >= key; }, v.cbegin(), std::prev(v.cend())); VCHECK(g.second == std::lower_bound(v.cbegin(), v.cend(), key) && g.first + 1 == g.second, "search", "[iterators] wrong position"); }
}

// ------------------------------------------------------------------ vectors
template<class V> void vec_case(Rng& r, const char* nm) {
    using T = typename V::value_type; auto mk = [&](size_t n) { V v; for (size_t i = 0; i < n; ++i) v.push_back(T(int64_t(r.below(1000)))); return v; };
    V a = mk(r.below(12)), b = mk(r.below(12)), c = mk(r.below(12)); oplog().add(nm, a.size(), b.size()); oplog().add("third", c.size());
    const V a0 = a, b0 = b; V e; for (auto& x : a) e.push_back(x); for (auto& x : b) e.push_back(x); VCHECK(gtl::cat(a, b) == e, "cat", "[%s] cat of two", nm); for (auto& x : c) e.push_back(x); VCHECK(gtl::cat(a, b, c) == e && gtl::cat(a0, b0, c) == e && gtl::cat(a, b0, V(c)) == e, "cat", "[%s] cat of three", nm); VCHECK(gtl::cat(a) == a && gtl::cat(V(a), V(b)) == gtl::cat(a, b) && a == a0 && b == b0, "cat", "[%s] cat changed its arguments", nm);
    // slices: [first, last) with a stride; -1 is the end, -2 the last element and so on
    int n = int(e.size()); for (int k = 0; k < 12; ++k) { int f = int(r.below(size_t(2 * n + 2))) - n - 1, l = int(r.below(size_t(2 * n + 2))) - n - 1, st = int(r.range(1, r.chance(20) ? size_t(n) + 3 : 4)); oplog().add("slice", uint64_t(f + 100), uint64_t(l + 100)); int ff = f >= 0 ? f : n + f + 1, ll = l >= 0 ? l : n + l + 1; if (ff < 0 || ll < 0 || ff > n || ll > n) continue; V w; for (int i = ff; i < ll; i += st) w.push_back(e[size_t(i)]); const V& ce = e; VCHECK(gtl::slice(e, f, l, st) == w && gtl::slice(ce, f, l, st) == w && gtl::slice(V(e), f, l, st) == w, "slice", "[%s] slice(%d elements, %d, %d, %d) is wrong", nm, n, f, l, st); cnt("slices")++; if (st == 1) VCHECK(gtl::slice(e, f, l) == w, "slice", "[%s] slice with the default stride", nm); }
    VCHECK(gtl::slice(e) == e && gtl::slice(e, 0, -1, 1) == e, "slice", "[%s] the whole slice", nm); if (n) { int k = int(r.below(size_t(n) + 1)); VCHECK(gtl::cat(gtl::slice(e, 0, k), gtl::slice(e, k)) == e, "slice", "[%s] two slices do not make the whole", nm); }
}
void c_vec(Rng& r, uint64_t i) {
    { if (i % 3 == 0) vec_case<std::vector<int>>(r, "vector<int>"); else if (i % 3 == 1) vec_case<std::vector<Obj>>(r, "vector<obj>"); else vec_case<gtl::vector<int>>(r, "gtl::vector<int>");
    std::vector<int> v(r.below(20)); for (auto& x : v) x = int(r.below(1000)) - 500; size_t calls = 0; auto m = gtl::map([&](int x) { ++calls; return std::to_string(x); }, v); static_assert(std::is_same_v<decltype(m), std::vector<std::string>>); VCHECK(calls == v.size() && m.size() == v.size(), "map", "map called its function %zu times for %zu elements", calls, v.size()); for (size_t k = 0; k < v.size(); ++k) VCHECK(m[k] == std::to_string(v[k]), "map", "map is wrong at %zu", k);
    auto mo = gtl::map([&](const Obj& o) { return o.get() + 1; }, std::vector<Obj>(3, Obj(4))); VCHECK((mo == std::vector<int64_t>{ 5, 5, 5 }), "map", "map of objects");
    namespace C = combinators; int x = int(r.below(50)), y = int(r.below(50)); auto inc = C::_plus(1); auto dbl = C::_mul(2);
    VCHECK(C::_b(inc, dbl)(x) == 2 * x + 1 && C::_c(C::_sub_)(x, y) == y - x && C::_l_(x, y) == x && C::_r_(x, y) == y && C::_phi(inc, C::_plus_, dbl)(x) == 3 * x + 1 && C::_phi1_(C::_min_, C::_sub_, C::_max_)(x, y) == std::min(x, y) - std::max(x, y) && C::_psi(C::_eq_, dbl)(x, y) == (x == y), "combinators", "a combinator is wrong");
    VCHECK(C::_eq(x)(y) == (x == y) && C::_lt(x)(y) == (x > y) && C::lt_(x)(y) == (y < x) && C::_gte(x)(y) == (x >= y) && C::_sub(x)(y) == x - y && C::sub_(x)(y) == y - x && C::_fst(std::make_tuple(x, y)) == x && C::_snd(std::make_tuple(x, y)) == y, "combinators", "an operation of the combinators is wrong"); }
    VCHECK(g_live == 0, "leak", "elements leaked");
}
// ------------------------------------------------------------------ stopwatches, between two readings of the clock they use
using WClock = std::chrono::high_resolution_clock;
static double secs(WClock::time_point a, WClock::time_point b) { return std::chrono::duration<double>(b - a).count(); }
static void spin(Rng& r) { auto n = r.pick<uint64_t>({ 0, 100, 20000, 200000 }); oplog().add("spin", n); volatile uint64_t x = 0; for (uint64_t i = 0; i < n; ++i) x = x + i; }
// `lo` and `hi`: the least and the most the watch can have measured, in seconds; the clock may be set meanwhile, so only a repeated miss counts
static bool between(double got, double lo, double hi) { double e = 1e-6 * std::abs(hi) + 1e-9; cnt("times_judged")++; return got >= lo - e && got <= hi + e; }
template<class Unit> bool watch_once(Rng& r, std::string& why) {
    double u = double(Unit::num) / double(Unit::den); bool started = r.chance(70); auto a = WClock::now(); gtl::stopwatch<Unit> w(started); auto b = WClock::now();
    if (!started || r.chance(30)) { spin(r); a = WClock::now(); if (r.chance(50) || !started) { w.start(); } else { gtl::start_snap<gtl::stopwatch<Unit>> g(w); } b = WClock::now(); }
    auto sa = a, sb = b; // the snap is the start until it is taken
    for (int i = 0; i < 4; ++i) { spin(r);
        unsigned k = unsigned(r.below(4)); oplog().add("read", k); switch (k) {
        case 0: { auto x = WClock::now(); double d = double(w.since_start()) * u; auto y = WClock::now(); if (!between(d, secs(b, x), secs(a, y))) { why = "since_start"; return false; } break; }
        case 1: { auto x = WClock::now(); double d = double(w.since_snap()) * u; auto y = WClock::now(); if (!between(d, secs(sb, x), secs(sa, y))) { why = "since_snap"; return false; } break; }
        case 2: { sa = WClock::now(); w.snap(); sb = WClock::now(); break; }
        default: if (r.chance(30)) { a = WClock::now(); { gtl::start_snap<gtl::stopwatch<Unit>> g(w); b = WClock::now(); spin(r); sa = WClock::now(); } sb = WClock::now(); } break; }
        double d = double(w.start_to_snap()) * u; bool same = sa == a && sb == b; if (!between(d, same ? 0 : std::max(0.0, secs(b, sa)), secs(a, sb))) { why = "start_to_snap"; return false; } }
    return true;
}
void c_watch(Rng& r, uint64_t) {
    std::string why; oplog().add("watch"); for (int t = 0;; ++t) { bool ok = r.chance(50) ? watch_once<std::milli>(r, why) : r.chance(50) ? watch_once<std::micro>(r, why) : watch_once<std::ratio<1>>(r, why); if (ok) break; VCHECK(t < 5, "stopwatch", "%s is not the elapsed time", why.c_str()); }
    if (r.chance(20)) { // prints its message and the seconds when it ends
        std::string msg = r.chance(20) ? std::string() : "took " + std::to_string(r.below(100)) + ": "; std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); for (int t = 0;; ++t) { o.str(""); auto a = WClock::now(); double us, lo, hi; WClock::time_point b, x, y; { gtl::basic_stopwatch w(msg); b = WClock::now(); spin(r); if (r.chance(30)) { a = WClock::now(); w.start(); b = WClock::now(); } x = WClock::now(); us = w.get_time_us(); y = WClock::now(); } auto z = WClock::now(); lo = secs(b, x); hi = secs(a, z);
            std::string s = o.str(); bool ok = between(us * 1e-6, lo, secs(a, y)); if (msg.empty()) ok = ok && s.empty(); else ok = ok && s.size() > msg.size() + 2 && s.compare(0, msg.size(), msg) == 0 && s.substr(s.size() - 2) == "s\n" && [&] { double d = std::stod(s.substr(msg.size())); return d >= lo * 0.9999 - 1e-9 && d <= hi * 1.0001 + 1e-9; }();
            if (ok) break; if (t >= 5) { std::cout.rdbuf(old); violation("stopwatch", "a stopwatch printed '%s'", s.c_str()); } } std::cout.rdbuf(old); cnt("printed")++; }
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "scopes", c_scopes }, { "values", c_values }, { "search", c_search }, { "vec", c_vec }, { "watch", c_watch } }); }
