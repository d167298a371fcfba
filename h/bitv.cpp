// P17, P23: gtl::bit_vector and gtl::bit_view against plain arrays of booleans.
#include "common.hpp"
#include <gtl/bit_vector.hpp>
#include <sstream>
using namespace vf;
using BV = gtl::bit_vector;
using M = std::vector<char>;
static constexpr size_t NPOS = BV::npos;

struct W {
    Rng& r; std::vector<BV> b; std::vector<M> m;
    size_t len() { unsigned k = unsigned(r.below(10)); if (k < 3) return r.below(70); if (k < 8) { size_t q = r.below(6) * 64; size_t d = r.below(5); return q + d >= 2 ? q + d - 2 : 0; } return r.below(700); }
    explicit W(Rng& r_) : r(r_), b(3), m(3) { for (size_t i = 0; i < 3; ++i) { size_t n = len(); bool v = r.chance(40); b[i] = BV(n, v); m[i] = M(n, v); if (r.chance(60)) fill(i); } }
    void fill(size_t i) { unsigned d = r.pick<unsigned>({ 2, 50, 98 }); for (size_t k = 0; k < m[i].size(); ++k) { m[i][k] = r.chance(d); b[i].set(k, m[i][k]); } }
    // a range of bits: ends on or next to block boundaries often
    size_t edge(size_t n) { unsigned k = unsigned(r.below(10)); if (k < 4) { size_t q = r.below(n / 64 + 2) * 64, d = r.below(3); size_t x = q + d >= 1 ? q + d - 1 : 0; return std::min(x, n); } return k < 5 ? 0 : k < 6 ? n : r.below(n + 1); }
    std::pair<size_t, size_t> range(size_t n) { size_t a = edge(n), z = edge(n); if (r.chance(15)) z = std::min(n, a + r.below(66)); if (a > z) std::swap(a, z); return { a, z }; }
    void check(size_t i, const char* what) {
        BV& x = b[i]; M& y = m[i]; const BV& cx = x; size_t n = y.size();
        VCHECK(x.size() == n && x.empty() == (n == 0) && x.num_blocks() == (n + 63) / 64, "size", "%s: size %zu, expected %zu", what, x.size(), n);
        size_t c = 0; for (size_t k = 0; k < n; ++k) { VCHECK(cx[k] == bool(y[k]), "bit", "%s: bit %zu of %zu is %d, expected %d", what, k, n, int(cx[k]), int(y[k])); c += size_t(y[k]); }
        cnt("bits_compared") += n;
        VCHECK(cx.count() == c && cx.any() == (c > 0) && cx.none() == (c == 0) && cx.every() == (c == n), "count", "%s: count %zu any %d none %d every %d, expected %zu of %zu", what, cx.count(), cx.any(), cx.none(), cx.every(), c, n);
        for (size_t k = 0; k < (n + 63) / 64; ++k) { uint64_t v = 0; for (size_t j = 0; j < 64 && k * 64 + j < n; ++j) v |= uint64_t(y[k * 64 + j]) << j; VCHECK(cx.block(k) == v, "block", "%s: block %zu of a bit_vector of %zu bits is %llx, expected %llx", what, k, n, (unsigned long long)cx.block(k), (unsigned long long)v); }
    }
    static std::string hex(const M& y) { if (y.empty()) return "<empty>"; std::string s; for (size_t k = 0; k < (y.size() + 7) / 8; ++k) { unsigned v = 0; for (size_t j = 0; j < 8 && k * 8 + j < y.size(); ++j) v |= unsigned(y[k * 8 + j]) << j; char t[4]; snprintf(t, sizeof t, "%02x", v); s = t + s; } return "0x" + s; }
    // everything that can be read from a whole vector
    void reads(size_t i, size_t j, const char* what) {
        const BV &x = b[i], &z = b[j]; const M &y = m[i], &w = m[j]; size_t n = y.size();
        find_all(x, y, what);
        std::string bin(n, '0'); for (size_t k = 0; k < n; ++k) if (y[k]) bin[n - 1 - k] = '1';
        VCHECK(x.to_string() == bin, "to_string", "%s: to_string of %zu bits", what, n);
        if (r.chance(20)) { std::string o = bin; for (auto& c : o) c = c == '0' ? '.' : 'X'; VCHECK(x.to_string('.', 'X') == o, "to_string", "%s: to_string with characters", what); std::wstring ws = x.to_string<wchar_t>(); VCHECK(ws == std::wstring(bin.begin(), bin.end()), "to_string", "%s: wide to_string", what); }
        uint64_t lo = 0; for (size_t k = 0; k < 64 && k < n; ++k) lo |= uint64_t(y[k]) << k;
        VCHECK(x.to_ullong() == lo && x.to_ulong() == lo, "to_ullong", "%s: to_ullong is %llx, expected %llx", what, (unsigned long long)x.to_ullong(), (unsigned long long)lo);
        std::string h = hex(y); VCHECK(static_cast<std::string>(x) == h, "string", "%s: string %s, expected %s", what, static_cast<std::string>(x).c_str(), h.c_str());
        std::ostringstream os; os << x; VCHECK(os.str() == h, "string", "%s: printed %s", what, os.str().c_str());
        if (n) { std::string ap = "ab"; x.append_to_string(ap); VCHECK(ap == "ab" + h.substr(2), "string", "%s: append_to_string gives %s", what, ap.c_str()); }
        bool eq = y == w; VCHECK((x == z) == eq && (x != z) == !eq, "equal", "%s: == is %d, expected %d", what, x == z, eq);
        if (eq) VCHECK(std::hash<BV>()(x) == std::hash<BV>()(z), "hash", "%s: equal bit_vectors hash differently", what);
        pred(x, y, z, w, what); cnt("read_checks")++;
    }
    template<class A, class B> void pred(const A& x, const M& y, const B& z, const M& w, const char* what) {
        size_t c = std::min(y.size(), w.size()); bool in = false; for (size_t k = 0; k < c; ++k) in |= y[k] && w[k];
        VCHECK(x.disjoint(z) == !in, "disjoint", "%s: disjoint is %d, expected %d (sizes %zu %zu)", what, x.disjoint(z), !in, y.size(), w.size());
        if constexpr (requires { x.intersects(z); }) VCHECK(x.intersects(z) == in, "intersects", "%s: intersects is wrong", what); else VCHECK(x.intersect(z) == in, "intersects", "%s: intersect is wrong", what);
        if (y.size() >= w.size()) { bool ct = true; for (size_t k = 0; k < w.size(); ++k) ct &= !w[k] || y[k]; VCHECK(x.contains(z) == ct, "contains", "%s: contains is %d, expected %d (sizes %zu %zu)", what, x.contains(z), ct, y.size(), w.size()); }
    }
    template<class A> void find_all(const A& x, const M& y, const char* what) {
        size_t n = y.size(), f = NPOS; std::vector<size_t> nx(n + 1, NPOS); for (size_t k = n; k-- > 0;) { if (y[k]) f = k; nx[k] = f; }
        VCHECK(x.find_first() == f, "find", "%s: find_first is %zu, expected %zu", what, x.find_first(), f);
        for (int q = 0; q < 8; ++q) { size_t s = r.chance(50) ? r.below(n + 3) : edge(n); size_t e = s < n ? nx[s] : NPOS; VCHECK(x.find_next(s) == e, "find", "%s: find_next(%zu) of %zu bits is %zu, expected %zu", what, s, n, x.find_next(s), e); }
        size_t got = 0, want = 0; for (char c : y) want += size_t(c); for (size_t k = x.find_first(); k != NPOS; k = x.find_next(k + 1)) { VCHECK(k < n && y[k], "find", "%s: iteration over the set bits visits %zu", what, k); ++got; VCHECK(got <= want, "find", "%s: iteration over the set bits does not end", what); }
        VCHECK(got == want, "find", "%s: iteration visits %zu set bits of %zu", what, got, want); cnt("finds")++;
    }
    M sub(size_t i, std::pair<size_t, size_t> g) { return M(m[i].begin() + std::ptrdiff_t(g.first), m[i].begin() + std::ptrdiff_t(g.second)); }
    // reads of a view
    void vreads(size_t i, size_t j) {
        auto g = range(m[i].size()), h = r.chance(40) ? std::make_pair(size_t(0), m[j].size()) : range(m[j].size()); if (r.chance(50)) { size_t l = std::min(g.second - g.first, h.second - h.first); g.second = g.first + l; h.second = h.first + l; }
        oplog().add("view-read", g.first * 1000 + g.second, h.first * 1000 + h.second);
        const BV& cb = b[i]; auto x = cb.view(g.first, g.second); auto z = b[j].view(h.first, h.second); M y = sub(i, g), w = sub(j, h); size_t n = y.size(), c = 0; for (char q : y) c += size_t(q);
        VCHECK(x.size() == n && x.empty() == (n == 0), "view-size", "view of [%zu,%zu) has size %zu", g.first, g.second, x.size());
        VCHECK(x.count() == c && x.any() == (c > 0) && x.none() == (c == 0) && x.every() == (c == n), "view-count", "view [%zu,%zu): count %zu any %d none %d every %d, expected %zu of %zu", g.first, g.second, x.count(), x.any(), x.none(), x.every(), c, n);
        { std::ostringstream os; os << x; VCHECK(os.str() == hex(y), "view-string", "view [%zu,%zu): printed %s, expected %s", g.first, g.second, os.str().c_str(), hex(y).c_str()); }
        for (int q = 0; q < 4 && n; ++q) { size_t k = r.below(n); VCHECK(x[k] == bool(y[k]), "view-bit", "view [%zu,%zu): bit %zu", g.first, g.second, k); }
        find_all(x, y, "view"); VCHECK((x == z) == (y == w), "view-equal", "views [%zu,%zu) and [%zu,%zu): == is %d", g.first, g.second, h.first, h.second, x == z);
        pred(x, y, z, w, "view"); VCHECK(static_cast<std::string>(x) == hex(y), "view-string", "view [%zu,%zu): string %s, expected %s", g.first, g.second, static_cast<std::string>(x).c_str(), hex(y).c_str());
        cnt("view_checks")++;
    }
    static void shl(M& y, size_t a, size_t z, size_t c) { for (size_t k = a; k < z; ++k) y[k] = c < z - k ? y[k + c] : 0; }
    static void shr(M& y, size_t a, size_t z, size_t c) { for (size_t k = z; k-- > a;) y[k] = c <= k - a ? y[k - c] : 0; }
    size_t amount(size_t n) { return r.chance(40) ? r.pick<size_t>({ 0, 1, 63, 64, 65, 127, 128, 129, 192, 200 }) : r.below(n + 3); }
    static char bop(unsigned k, char a, char c) { switch (k) { case 0: return a | c; case 1: return a & c; case 2: return a ^ c; case 3: return a & !c; default: return a | !c; } }
    void op() {
        size_t i = r.below(3), j = r.below(3); BV& x = b[i]; M& y = m[i]; size_t n = y.size(); unsigned k = unsigned(r.below(30)); const char* what = ""; if (g_value && r.chance(50)) k = r.pick<unsigned>({ 16, 17, 18 });
        auto log = [&](const char* w, size_t a = 0, size_t c = 0) { what = w; oplog().add(w, a * 100003 + n, c * 3 + i); };
        BV* ret = &x;
        switch (k) {
        case 0: { size_t z = r.chance(30) ? edge(n) : len(); bool v = r.chance(50); log("resize", z, v); if (r.chance(50) && !v) x.resize(z); else x.resize(z, v); y.resize(z, char(v)); break; }
        case 1: { if (!n) break; size_t p = std::min(edge(n), n - 1); log("set", p); ret = &x.set(p); y[p] = 1; break; }
        case 2: { if (!n) break; size_t p = std::min(edge(n), n - 1); log("reset", p); ret = &x.reset(p); y[p] = 0; break; }
        case 3: { if (!n) break; size_t p = std::min(edge(n), n - 1); log("flip", p); ret = &x.flip(p); y[p] = !y[p]; VCHECK(x.test(p) == bool(y[p]), "test", "test(%zu)", p); break; }
        case 4: { if (!n) break; size_t p = std::min(edge(n), n - 1); bool v = r.chance(50); log("set-value", p, v); ret = &x.set(p, v); y[p] = v; break; }
        case 5: log("set-all"); ret = &x.set(); std::fill(y.begin(), y.end(), char(1)); break;
        case 6: log("reset-all"); ret = &x.reset(); std::fill(y.begin(), y.end(), char(0)); if (r.chance(80)) fill(i); break;
        case 7: log("flip-all"); ret = &x.flip(); for (auto& c : y) c = !c; break;
        case 8: { size_t c = amount(n); log("<<=", c); ret = &(x <<= c); shl(y, 0, n, c); break; }
        case 9: { size_t c = amount(n); log(">>=", c); ret = &(x >>= c); shr(y, 0, n, c); break; }
        case 10: case 11: { // whole vector compound, with equal sizes
            b[j].resize(n); m[j].resize(n); unsigned o = unsigned(r.below(5)); log("compound", o, j); switch (o) { case 0: ret = &(x |= b[j]); break; case 1: ret = &(x &= b[j]); break; case 2: ret = &(x ^= b[j]); break; case 3: ret = &(x -= b[j]); break; default: ret = &x.or_not(b[j]); } M w = m[j]; for (size_t q = 0; q < n; ++q) y[q] = bop(o, y[q], w[q]); break; }
        case 12: { // value operators
            b[j].resize(n); m[j].resize(n); unsigned o = unsigned(r.below(7)); size_t c = amount(n); log("operator", o, j); M w = y; BV res; const BV &cx = x, &cz = b[j]; switch (o) { case 0: res = cx | cz; break; case 1: res = cx & cz; break; case 2: res = cx ^ cz; break; case 3: res = cx - cz; break; case 4: res = ~cx; for (auto& q : w) q = !q; break; case 5: res = cx << c; shl(w, 0, n, c); break; default: res = cx >> c; shr(w, 0, n, c); }
            if (o < 4) for (size_t q = 0; q < n; ++q) w[q] = bop(o, y[q], m[j][q]); check(i, "operator operand"); x = std::move(res); y = w; VCHECK(res.size() == 0 && !res.any() && res.count() == 0 && res.find_first() == NPOS, "moved-from", "a moved-from bit_vector is not empty"); break; }
        case 13: { size_t z = r.below(5); std::vector<uint64_t> v(z); for (auto& q : v) q = r.next(); log("list-construct", z); switch (z) { case 0: x = BV(); break; case 1: x = BV({ v[0] }); break; case 2: x = BV({ v[0], v[1] }); break; case 3: x = BV({ v[0], v[1], v[2] }); break; default: x = BV({ v[0], v[1], v[2], v[3] }); } y.assign(z * 64, 0); for (size_t q = 0; q < z * 64; ++q) y[q] = (v[q / 64] >> (q % 64)) & 1; break; }
        case 14: { if (n < 65) break; uint64_t v0 = r.next(), v1 = r.next(); log("list-assign"); x = { v0, v1 }; for (size_t q = 0; q < 128 && q < n; ++q) y[q] = ((q < 64 ? v0 : v1) >> (q % 64)) & 1; break; }
        case 15: { size_t z = len(); bool v = r.chance(50); log("construct", z, v); x = BV(z, v); y.assign(z, v); break; }
        case 16: { if (i == j) { log("self-assign"); BV& a = x; x = a; break; } log("copy", j); if (r.chance(50)) x = b[j]; else { BV t(b[j]); x.swap(t); } y = m[j]; VCHECK(x == b[j], "copy", "a copy differs from its source"); break; }
        case 17: { if (i == j) { log("self-move"); BV& a = x; x = std::move(a); y = m[i]; if (x.size() != n) { y.assign(x.size(), 0); x.reset(); } break; } log("move", j); if (r.chance(50)) x = std::move(b[j]); else { BV t(std::move(b[j])); x.swap(t); } y = std::move(m[j]); m[j].clear(); check(j, "moved-from"); if (r.chance(50)) { size_t z = len(); b[j].resize(z, true); m[j].assign(z, 1); } check(j, "moved-from, resized"); break; }
        case 18: { log("swap", j); if (r.chance(50)) x.swap(b[j]); else std::swap(x, b[j]); if (i != j) m[i].swap(m[j]); break; }
        default: if (vop(k, i, j, what)) break; break;
        }
        VCHECK(ret == &x, "returned", "%s returned something else", what);
        if (!*what) return;
        check(i, what); if (i != j) check(j, what);
        if (r.chance(25)) reads(i, j, what);
        if (r.chance(40)) vreads(i, j);
    }
    bool vop(unsigned k, size_t i, size_t j, const char*& what) {
        BV& x = b[i]; M& y = m[i]; size_t n = y.size(); auto g = range(n); size_t a = g.first, z = g.second, l = z - a; auto v = a == 0 && z == n && r.chance(50) ? x.view() : x.view(a, z);
        auto log = [&](const char* w, size_t c = 0, size_t d = 0) { what = w; oplog().add(w, a * 100003 + z, c * 1009 + d * 3 + i); }; auto* ret = &v;
        switch (k) {
        case 19: { unsigned o = unsigned(r.below(3)); log("view-all", o); if (o == 0) { ret = &v.set(); std::fill(y.begin() + std::ptrdiff_t(a), y.begin() + std::ptrdiff_t(z), char(1)); } else if (o == 1) { ret = &v.reset(); std::fill(y.begin() + std::ptrdiff_t(a), y.begin() + std::ptrdiff_t(z), char(0)); } else { ret = &v.flip(); for (size_t q = a; q < z; ++q) y[q] = !y[q]; } break; }
        case 20: { if (!l) break; size_t p = r.below(l); unsigned o = unsigned(r.below(5)); log("view-bit", o, p); switch (o) { case 0: ret = &v.set(p); y[a + p] = 1; break; case 1: ret = &v.reset(p); y[a + p] = 0; break; case 2: ret = &v.flip(p); y[a + p] = !y[a + p]; break; case 3: ret = &v.set(p, true); y[a + p] = 1; break; default: ret = &v.set(p, false); y[a + p] = 0; } break; }
        case 21: { size_t c = amount(l); log("view<<=", c); ret = &(v <<= c); shl(y, a, z, c); break; }
        case 22: { size_t c = amount(l); log("view>>=", c); ret = &(v >>= c); shr(y, a, z, c); break; }
        case 23: { if (l > 64) { z = a + r.below(65); l = z - a; } uint64_t u = r.next(); log("view=number", size_t(u)); auto w = x.view(a, z); VCHECK(&(w = u) == &w, "returned", "view = number returned something else"); for (size_t q = 0; q < l; ++q) y[a + q] = (u >> q) & 1; break; }
        case 24: { uint64_t u[3] = { r.next(), r.next(), r.next() }; log("view=list", size_t(u[0])); ret = &(v = { u[0], u[1], u[2] }); for (size_t q = 0; q < l && q < 192; ++q) y[a + q] = (u[q / 64] >> (q % 64)) & 1; break; }
        default: { // assignment or compound with a view of the same length, in the same or another bit_vector
            if (r.chance(50)) j = i; size_t nj = m[j].size(); if (l > nj) { l = nj; z = a + l; } size_t s = r.chance(50) ? r.below(nj - l + 1) : std::min(edge(nj), nj - l); if (j == i && r.chance(40)) { size_t d = r.below(70); s = r.chance(50) ? (a >= d ? a - d : 0) : std::min(nj - l, a + d); }
            M src(m[j].begin() + std::ptrdiff_t(s), m[j].begin() + std::ptrdiff_t(s + l)); unsigned o = unsigned(r.below(8)); log(j == i ? "view-op-same" : "view-op", o * 1000 + s, j); auto t = x.view(a, z); auto* rt = &t; const auto w = static_cast<const BV&>(b[j]).view(s, s + l);
            switch (o) { case 0: rt = &(t |= w); break; case 1: rt = &(t &= w); break; case 2: rt = &(t ^= w); break; case 3: rt = &(t -= w); break; case 4: rt = &t.or_not(w); break; case 5: rt = &t.copy_slow(w); break; default: rt = &(t = w); }
            for (size_t q = 0; q < l; ++q) y[a + q] = o > 4 ? src[q] : bop(o, y[a + q], src[q]);
            if (j == i && l && s < a + l && a < s + l) cnt("overlapping_ops")++;
            VCHECK(rt == &t, "returned", "view operator returned something else"); if (j != i) check(j, what); break; }
        }
        VCHECK(ret == &v, "returned", "%s returned something else", what); cnt("view_ops")++;
        return true;
    }
};
void c_model(Rng& r, uint64_t) { W w(r); size_t n = r.pick<size_t>({ 10, 30, 80 }); for (size_t i = 0; i < n; ++i) w.op(); }
// every pair (target start, length) near the block boundaries with every source offset, for one operation per case
void c_align(Rng& r, uint64_t) {
    size_t L = r.pick<size_t>({ 1, 2, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 190, 193 }); unsigned o = unsigned(r.below(8)); size_t N = L + 70; oplog().add("align", L, o); oplog().add("sweep"); oplog().add("sweep");
    BV base(N), other(N); M bm(N), om(N); for (size_t k = 0; k < N; ++k) { bm[k] = r.chance(50); om[k] = r.chance(50); base.set(k, bm[k]); other.set(k, om[k]); }
    bool same = r.chance(50); size_t a = r.below(N - L + 1);
    for (size_t s = 0; s + L <= N; ++s) {
        BV x = base; M y = bm; BV& src = same ? x : other; M sm = same ? bm : om; auto t = x.view(a, a + L);
        if (o < 6) { auto w = src.view(s, s + L); switch (o) { case 0: t |= w; break; case 1: t &= w; break; case 2: t ^= w; break; case 3: t -= w; break; case 4: t.or_not(w); break; default: t = w; } for (size_t q = 0; q < L; ++q) y[a + q] = o > 4 ? sm[s + q] : W::bop(o, bm[a + q], sm[s + q]); }
        else if (o == 6) { auto w = x.view(s, s + L); w <<= a; W::shl(y, s, s + L, a); } else { auto w = x.view(s, s + L); w >>= a; W::shr(y, s, s + L, a); }
        for (size_t k = 0; k < N; ++k) VCHECK(x[k] == bool(y[k]), "bit", "operation %u, %s vector, target [%zu,%zu) source [%zu,%zu): bit %zu is %d", o, same ? "same" : "other", a, a + L, s, s + L, k, int(x[k]));
        cnt("alignments")++;
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "model", c_model }, { "value", c_model }, { "align", c_align } }); }
