// P21: structure of arrays, against a vector of rows.
#include "mt.hpp"
#include <gtl/soa.hpp>
#include <functional>
#include <sstream>
using namespace vf;
namespace vf { inline std::ostream& operator<<(std::ostream& o, const Obj& x) { return o << "obj" << x.get(); } }
template<class T> T mkv(int64_t x) { if constexpr (std::is_same_v<T, std::string>) return x == 0 ? std::string() : "a string with the number " + std::to_string(x); else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return {}; else return T(x); }
static int64_t key_of(const std::string& s) { return s.empty() ? 0 : std::stoll(s.substr(24)); }
static int64_t key_of(const Obj& o) { return o.get(); }
template<class T> int64_t key_of(const T& t) { return int64_t(t); }
// a comparator which throws after some calls
struct Cmp { int kind; int64_t mod; std::function<void()>* hook = nullptr; template<class T> bool operator()(const T& a, const T& b) const { fault_point(F_CMP); if (hook) (*hook)(); int64_t x = key_of(a), y = key_of(b); switch (kind) { case 0: return x < y; case 1: return x > y; case 2: return x % mod < y % mod; default: return false; } } };

template<class... Ts> struct SoaCase {
    using S = gtl::soa<Ts...>; using Row = std::tuple<Ts...>; static constexpr size_t NC = sizeof...(Ts); using Seq = std::make_index_sequence<NC>;
    const char* nm; Rng& r; int64_t next = 1;
    std::vector<int64_t> keys(size_t n) { // shapes which give different cycle structures
        std::vector<int64_t> v(n); int sh = int(r.below(7)); int64_t m = int64_t(r.range(1, 9)); for (size_t i = 0; i < n; ++i) switch (sh) { case 0: v[i] = int64_t(r.below(1000)); break; case 1: v[i] = int64_t(i); break; case 2: v[i] = int64_t(n - i); break; case 3: v[i] = int64_t((i + 1) % n); break; case 4: v[i] = int64_t(r.below(size_t(m))); break; case 5: v[i] = int64_t(i ^ 1); break; case 6: v[i] = int64_t((i + n / 2) % n); break; } return v; }
    template<size_t... I> Row mkrow(std::index_sequence<I...>, int64_t base) { return Row(mkv<Ts>(r.chance(30) ? int64_t(r.below(6)) : base + int64_t(I) * 100000)...); }
    template<size_t... I> void ins(S& s, const Row& x, std::index_sequence<I...>) { s.insert(std::get<I>(x)...); }
    template<size_t... I> void lens(const S& s, size_t n, const char* op, std::index_sequence<I...>) { size_t l[] = { s.template get_column<I>().size()... }; for (size_t x : l) VCHECK(x == n, "length", "[%s] after %s a column has %zu rows, expected %zu", nm, op, x, n); }
    template<size_t... I> void cols(const S& s, const std::vector<Row>& m, const char* op, std::index_sequence<I...>) {
        for (size_t i = 0; i < m.size(); ++i) { auto t = s[i]; VCHECK(((std::get<I>(t) == std::get<I>(m[i])) && ...), "row", "[%s] after %s row %zu of %zu is wrong", nm, op, i, m.size()); VCHECK(((&std::get<I>(t) == &s.template get_column<I>()[i]) && ...), "row", "[%s] after %s [] and the columns disagree", nm, op); } }
    void check(const S& s, const std::vector<Row>& m, const char* op) { VCHECK(s.size() == m.size() && s.empty() == m.empty(), "size", "[%s] after %s size is %zu, expected %zu", nm, op, s.size(), m.size()); lens(s, m.size(), op, Seq()); cols(s, m, op, Seq()); cnt("rows_checked") += m.size(); }
    template<size_t C> void sort_col(S& s, std::vector<Row>& m) {
        int k = int(r.below(5)); int64_t mod = int64_t(r.range(1, 5));
        if (k == 4) { oplog().add("sort", C); s.template sort_by_field<C>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return std::get<C>(a) < std::get<C>(b); }); check(s, m, "sort"); return; }
        Cmp c{ k, mod }; bool boom = r.chance(15) && m.size() > 1; oplog().add(boom ? "sort-throw" : "sort-by", C, uint64_t(k));
        if (boom) { arm(F_CMP, long(r.range(1, m.size() * 3))); bool thrown = false; try { s.template sort_by_field<C>(c); } catch (const Fault&) { thrown = true; } disarm(); if (thrown) { check(s, m, "a comparator threw"); cnt("comparator_throws")++; return; } }
        else if (r.chance(15)) { // a comparator which sorts another soa of the same type now and then
            S t; std::vector<Row> tm; size_t cn = r.range(2, 2 * m.size() + 9); for (size_t i = 0; i < cn; ++i) { Row x = mkrow(Seq(), next++); ins(t, x, Seq()); tm.push_back(x); } size_t at = r.below(m.size() + 1), calls = 0;
            std::function<void()> hook = [&] { if (calls++ == at) { t.template sort_by_field<C>(Cmp{ k, mod }); std::stable_sort(tm.begin(), tm.end(), [&](auto& x, auto& y) { return c(std::get<C>(x), std::get<C>(y)); }); } };
            s.template sort_by_field<C>(Cmp{ k, mod, &hook }); check(t, tm, "a sort inside a comparator"); cnt("nested_sorts")++; }
        else if (r.chance(50)) s.template sort_by_field<C>(c); else s.template sort_by_field<C>([&](const auto& a, const auto& b) { return c(a, b); });
        std::stable_sort(m.begin(), m.end(), [&](auto& a, auto& b) { return c(std::get<C>(a), std::get<C>(b)); }); check(s, m, "sort"); cnt("sorts")++;
    }
    template<size_t... I> void sort_any(S& s, std::vector<Row>& m, std::index_sequence<I...>) { size_t c = r.below(NC); ((c == I ? sort_col<I>(s, m) : void()), ...); }
    template<size_t C> void set_key_col(S& s, std::vector<Row>& m) { auto k = keys(m.size()); for (size_t i = 0; i < m.size(); ++i) { using T = std::tuple_element_t<C, Row>; std::get<C>(m[i]) = mkv<T>(k[i]); s.template get_column<C>()[i] = mkv<T>(k[i]); } }
    template<size_t... I> void set_any(S& s, std::vector<Row>& m, std::index_sequence<I...>) { size_t c = r.below(NC); ((c == I ? set_key_col<I>(s, m) : void()), ...); }
    void run() {
        { S s; std::vector<Row> m; size_t n = r.pick<size_t>({ 10, 40 }), big = r.pick<size_t>({ 3, 20, 70, 200 });
        for (size_t it = 0; it < n; ++it) {
            switch (r.below(14)) {
            case 0: case 1: case 2: { size_t c = r.range(1, big); oplog().add("insert", c); for (size_t i = 0; i < c && m.size() < 400; ++i) { Row x = mkrow(Seq(), next++); ins(s, x, Seq()); m.push_back(x); } check(s, m, "insert"); break; }
            case 3: if (!m.empty()) { size_t i = r.below(m.size()); oplog().add("assign-row", i); Row x = mkrow(Seq(), next++); s[i] = x; m[i] = x; check(s, m, "assignment of a row"); } break;
            case 4: if (!m.empty()) { size_t i = r.below(m.size()); oplog().add("assign-view", i); Row x = mkrow(Seq(), next++); s.template view<NC - 1>(i) = std::make_tuple(std::get<NC - 1>(x)); std::get<NC - 1>(m[i]) = std::get<NC - 1>(x); auto v = s.template view<NC - 1, 0>(i); std::get<1>(v) = std::get<0>(x); std::get<0>(m[i]) = std::get<0>(x); const S& cs = s; VCHECK(std::get<0>(cs.template view<0>(i)) == std::get<0>(m[i]) && std::get<0>(v) == std::get<NC - 1>(m[i]), "view", "[%s] view shows something else", nm); check(s, m, "assignment through a view"); } break;
            case 5: if (m.size() > 1) { size_t i = r.below(m.size()), j = r.below(m.size()); oplog().add("copy-row", i, j); s[i] = s[j]; m[i] = m[j]; check(s, m, "row copy"); } break;
            case 6: { size_t k = r.pick<size_t>({ 0, 1, m.size() / 2, m.size(), m.size() + r.below(40) }); oplog().add("resize", k); s.resize(k); m.resize(k); check(s, m, "resize"); break; }
            case 7: if (r.chance(25)) { oplog().add("clear"); s.clear(); m.clear(); check(s, m, "clear"); } break;
            case 8: oplog().add("reserve"); s.reserve(r.below(500)); check(s, m, "reserve"); break;
            case 9: oplog().add("set-column"); set_any(s, m, Seq()); check(s, m, "assignment of a column"); break;
            case 10: { oplog().add("copy"); S t(s); check(t, m, "copy"); S u; u = t; check(u, m, "copy assignment"); if (!m.empty()) { auto m2 = m; Row x = mkrow(Seq(), next++); t[0] = x; check(s, m, "a change of a copy"); m2[0] = x; check(t, m2, "a change of a copy"); } S v(std::move(u)); check(v, m, "move"); s = std::move(v); check(s, m, "move assignment"); break; }
            case 11: { // a fault in any constructor: nothing changed, all columns as long as before
                Row x = mkrow(Seq(), next++); bool rs = r.chance(30); oplog().add(rs ? "resize-fault" : "insert-fault"); size_t sz = m.size() + r.range(1, 6);
                for (long k = 1; k < 200; ++k) { arm(F_CTOR, k); bool thrown = false; try { if (rs) s.resize(sz); else ins(s, x, Seq()); } catch (const Fault&) { thrown = true; } disarm(); if (thrown) { check(s, m, rs ? "a fault in resize" : "a fault in insert"); cnt("faults")++; } else break; }
                if (rs) m.resize(sz); else m.push_back(x); check(s, m, "a retry after faults"); break; }
            default: sort_any(s, m, Seq()); break;
            }
        }
        std::ostringstream o; o << s; std::string e = "soa {\n"; for (auto& x : m) { std::ostringstream q; q << "\t"; bool first = true; std::apply([&](auto&... v) { ((q << (first ? "" : ", ") << v, first = false), ...); }, x); e += q.str() + "\n"; } e += "}\n"; VCHECK(o.str() == e, "print", "[%s] << prints other rows", nm); }
        VCHECK(g_live == 0, "leak", "[%s] %ld elements leaked", nm, g_live.load());
    }
};
void c_soa(Rng& r, uint64_t i) { switch (i % 5) { case 0: SoaCase<int, std::string, Obj>{ "soa<int,string,obj>", r }.run(); break; case 1: SoaCase<double, Obj>{ "soa<double,obj>", r }.run(); break; case 2: SoaCase<Obj>{ "soa<obj>", r }.run(); break; case 3: SoaCase<Obj, Obj, Obj, int64_t, std::string>{ "soa<5>", r }.run(); break; case 4: SoaCase<uint8_t, int>{ "soa<uint8,int>", r }.run(); break; } }
// soas of the same type sorted by different threads
void c_soamt(Rng& r, uint64_t) {
    int T = int(r.range(2, 4)); uint64_t seed = r.next(); oplog().add("threads", uint64_t(T), seed); oplog().add("sort"); oplog().add("sort");
    team(T, seed, [&](int t) { Rng q(seed ^ mix64(uint64_t(t))); gtl::soa<int, int64_t> s; std::vector<std::pair<int, int64_t>> m; size_t n = q.range(1, 150); for (size_t i = 0; i < n; ++i) { int k = int(q.below(40)); s.insert(k, int64_t(i)); m.emplace_back(k, int64_t(i)); }
        for (int round = 0; round < 4; ++round) { if (round & 1) { s.sort_by_field<1>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.second < b.second; }); } else { s.sort_by_field<0>(); std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first < b.first; }); }
            for (size_t i = 0; i < n; ++i) VCHECK(std::get<0>(s[i]) == m[i].first && std::get<1>(s[i]) == m[i].second, "row", "row %zu of %zu is wrong in a thread", i, n); } });
    cnt("threads_judged") += uint64_t(T);
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "soa", c_soa }, { "soamt", c_soamt } }); }
