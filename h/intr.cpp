// P20: intrusive_ptr. A model counts the owners of every object.
#include "mt.hpp"
#include <gtl/intrusive.hpp>
#include <sstream>
using namespace vf;

struct World { std::vector<int> alive, dtors; };
static World* g_w; // single threaded runs
template<class P> struct Base;
template<class P> struct Base : gtl::intrusive_ref_counter<Base<P>, P> {
    uint64_t tag; int id; gtl::intrusive_ptr<Base> next;
    explicit Base(int i) : tag(ALIVE ^ uintptr_t(this)), id(i) { if (g_w) g_w->alive[size_t(id)] = 1; g_live++; }
    Base(const Base& o) : gtl::intrusive_ref_counter<Base<P>, P>(o), tag(ALIVE ^ uintptr_t(this)), id(-1) { g_live++; }
    Base& operator=(const Base& o) = default;
    void check() const { VCHECK(tag == (ALIVE ^ uintptr_t(this)), "lifetime", "an object is used after its destruction"); }
    virtual int kind() const { return 0; }
    virtual ~Base() { check(); tag = DEAD; if (g_w && id >= 0) { VCHECK(g_w->alive[size_t(id)] == 1, "lifetime", "object %d is destroyed twice", id); g_w->alive[size_t(id)] = 0; g_w->dtors[size_t(id)]++; } g_live--; }
};
struct Junk { virtual ~Junk() = default; int j[5]; };
template<class P> struct Derived : Junk, Base<P> { using Base<P>::Base; int kind() const override { return 1; } };
template<class P> struct Other : Base<P> { using Base<P>::Base; int kind() const override { return 2; } std::string s = "some text which needs memory of its own"; };
// an abstract interface with its own hooks
struct Iface { virtual ~Iface() = default; virtual int f() const = 0; mutable unsigned rc = 0; };
inline void intrusive_ptr_add_ref(const Iface* p) { ++p->rc; }
inline void intrusive_ptr_release(const Iface* p) { if (--p->rc == 0) delete p; }
struct Impl : Iface { static inline int live = 0; int v; Impl(int x) : v(x) { ++live; } ~Impl() override { --live; } int f() const override { return v; } };

template<class P> void intr_case(Rng& r, const char* nm) {
    using B = Base<P>; using D = Derived<P>; using O = Other<P>; using PB = gtl::intrusive_ptr<B>; using PD = gtl::intrusive_ptr<D>; using PC = gtl::intrusive_ptr<const B>;
    World w; g_w = &w; std::vector<B*> raw; std::vector<int> kind, next_of;
    std::vector<int> det;                    // ids of references held by nobody
    constexpr size_t NB = 5, ND = 3, NC = 3; // slots
    { auto b = std::make_unique<PB[]>(NB); auto d = std::make_unique<PD[]>(ND); auto c = std::make_unique<PC[]>(NC);
    int mb[NB], md[ND], mc[NC]; for (auto& x : mb) x = -1; for (auto& x : md) x = -1; for (auto& x : mc) x = -1;
    auto mk = [&](int k) -> B* { int id = int(raw.size()); w.alive.push_back(0); w.dtors.push_back(0); B* p = k == 0 ? new B(id) : k == 1 ? static_cast<B*>(new D(id)) : new O(id); raw.push_back(p); kind.push_back(k); next_of.push_back(-1); return p; };
    auto owners = [&](int id) { int n = 0; for (int x : mb) n += x == id; for (int x : md) n += x == id; for (int x : mc) n += x == id; for (int x : det) n += x == id; return n; };
    auto live = [&] { // reachability through `next` from the roots
        std::vector<int> cntr(raw.size(), 0); std::vector<int> alive(raw.size(), 0), st; for (size_t i = 0; i < raw.size(); ++i) if (owners(int(i))) { alive[i] = 1; st.push_back(int(i)); }
        while (!st.empty()) { int x = st.back(); st.pop_back(); int n = next_of[size_t(x)]; if (n >= 0) { if (!alive[size_t(n)]) { alive[size_t(n)] = 1; st.push_back(n); } } } return alive; };
    auto check = [&](const char* op) {
        auto al = live(); for (size_t i = 0; i < raw.size(); ++i) if (!al[i] && next_of[i] >= 0) next_of[i] = -1;
        for (size_t i = 0; i < raw.size(); ++i) {
            int n = owners(int(i)); for (size_t j = 0; j < raw.size(); ++j) n += al[j] && next_of[j] == int(i);
            VCHECK(w.alive[i] == (n > 0), "lifetime", "[%s] after %s an object with %d owners is %s", nm, op, n, w.alive[i] ? "still there" : "destroyed");
            VCHECK(w.dtors[i] == (n > 0 ? 0 : 1), "lifetime", "[%s] after %s: %d destructions", nm, op, w.dtors[i]);
            if (n) { raw[i]->check(); VCHECK(int(raw[i]->use_count()) == n, "count", "[%s] after %s use_count is %u with %d owners", nm, op, raw[i]->use_count(), n); }
        }
        auto P_ = [&](int id) { return id < 0 ? nullptr : raw[size_t(id)]; };
        for (size_t i = 0; i < NB; ++i) VCHECK(b[i].get() == P_(mb[i]) && bool(b[i]) == (mb[i] >= 0), "pointer", "[%s] wrong pointer after %s", nm, op);
        for (size_t i = 0; i < ND; ++i) VCHECK(static_cast<B*>(d[i].get()) == P_(md[i]) && bool(d[i]) == (md[i] >= 0), "pointer", "[%s] wrong pointer after %s", nm, op);
        for (size_t i = 0; i < NC; ++i) VCHECK(c[i].get() == P_(mc[i]) && bool(c[i]) == (mc[i] >= 0), "pointer", "[%s] wrong pointer after %s", nm, op);
    };
    size_t n = r.pick<size_t>({ 30, 120 });
    for (size_t it = 0; it < n; ++it) {
        size_t i = r.below(NB), j = r.below(NB), k = r.below(ND), k2 = r.below(ND), q = r.below(NC), q2 = r.below(NC); const char* op = "";
#define OP(name, a, bb) op = name; oplog().add(name, a, bb)
        switch (r.below(44)) {
        case 0: case 1: case 2: { OP("new", i, 0); int kd = int(r.below(3)); B* p = mk(kd); if (r.chance(50)) b[i] = PB(p); else b[i] = p; mb[i] = int(raw.size()) - 1; break; }
        case 3: { OP("new-derived", k, 0); B* p = mk(1); d[k].reset(static_cast<D*>(p)); md[k] = int(raw.size()) - 1; break; }
        case 4: case 5: OP("copy", i, j); b[i] = b[j]; mb[i] = mb[j]; break;
        case 6: OP("move", i, j); b[i] = std::move(b[j]); if (i != j) { mb[i] = mb[j]; mb[j] = -1; } break;
        case 7: OP("copy-d", k, k2); d[k] = d[k2]; md[k] = md[k2]; break;
        case 8: OP("move-d", k, k2); d[k] = std::move(d[k2]); if (k != k2) { md[k] = md[k2]; md[k2] = -1; } break;
        case 9: OP("convert", i, k); b[i] = d[k]; mb[i] = md[k]; break;
        case 10: OP("convert-move", i, k); b[i] = std::move(d[k]); mb[i] = md[k]; VCHECK(!d[k], "pointer", "[%s] a converting move leaves its source", nm); md[k] = -1; break;
        case 11: OP("convert-ctor", i, k); { PB t(d[k]); VCHECK(t.get() == d[k].get() && t == d[k] && d[k] == t, "pointer", "[%s] converting copy", nm); mb[i] = md[k]; b[i] = std::move(t); VCHECK(!t, "pointer", "[%s] a moved-from pointer is not null", nm); } break;
        case 12: OP("convert-move-ctor", i, k); { PB t(std::move(d[k])); int m = md[k]; VCHECK(!d[k], "pointer", "[%s] a converting move leaves its source", nm); md[k] = -1; t.swap(b[i]); mb[i] = m; } break;
        case 13: OP("to-const", q, i); c[q] = b[i]; mc[q] = mb[i]; break;
        case 14: OP("to-const-move", q, i); c[q] = std::move(b[i]); mc[q] = mb[i]; VCHECK(!b[i], "pointer", "[%s] a converting move leaves its source", nm); mb[i] = -1; break;
        case 15: OP("d-to-const", q, k); c[q] = PC(d[k]); mc[q] = md[k]; break;
        case 16: OP("swap", i, j); { using std::swap; r.chance(50) ? b[i].swap(b[j]) : swap(b[i], b[j]); std::swap(mb[i], mb[j]); } break;
        case 17: OP("reset", i, 0); b[i].reset(); mb[i] = -1; break;
        case 18: OP("reset-d", k, 0); d[k].reset(); md[k] = -1; break;
        case 19: OP("reset-c", q, 0); c[q].reset(); mc[q] = -1; break;
        case 20: OP("reset-raw", i, j); b[i].reset(b[j].get()); mb[i] = mb[j]; break;
        case 21: OP("assign-raw", i, j); b[i] = b[j].get(); mb[i] = mb[j]; break;
        case 22: OP("assign-raw-d", i, k); b[i] = static_cast<B*>(d[k].get()); mb[i] = md[k]; break;
        case 23: OP("detach", i, 0); { B* p = b[i].detach(); VCHECK(p == (mb[i] < 0 ? nullptr : raw[size_t(mb[i])]), "pointer", "[%s] detach", nm); if (mb[i] >= 0) det.push_back(mb[i]); mb[i] = -1; } break;
        case 24: if (!det.empty()) { OP("adopt", i, 0); int id = det.back(); det.pop_back(); if (r.chance(50)) b[i].reset(raw[size_t(id)], false); else b[i] = PB(raw[size_t(id)], false); mb[i] = id; } break;
        case 25: OP("reset-add", i, j); b[i].reset(b[j].get(), true); mb[i] = mb[j]; break;
        case 26: OP("static-cast", k, i); if (mb[i] >= 0 && kind[size_t(mb[i])] == 1) { if (r.chance(50)) { d[k] = gtl::static_pointer_cast<D>(b[i]); md[k] = mb[i]; } else { int id = mb[i]; d[k] = gtl::static_pointer_cast<D>(std::move(b[i])); VCHECK(!b[i], "pointer", "[%s] an rvalue cast leaves its source", nm); mb[i] = -1; md[k] = id; } } break;
        case 27: OP("dynamic-cast", k, i); { bool is = mb[i] >= 0 && kind[size_t(mb[i])] == 1; d[k] = gtl::dynamic_pointer_cast<D>(b[i]); md[k] = is ? mb[i] : -1; } break;
        case 28: OP("dynamic-cast-rvalue", k, i); { bool is = mb[i] >= 0 && kind[size_t(mb[i])] == 1; d[k] = gtl::dynamic_pointer_cast<D>(std::move(b[i])); md[k] = is ? mb[i] : -1; if (is) mb[i] = -1; } break;
        case 29: OP("const-cast", i, q); b[i] = gtl::const_pointer_cast<B>(c[q]); mb[i] = mc[q]; break;
        case 30: OP("const-cast-rvalue", i, q); { b[i] = gtl::const_pointer_cast<B>(std::move(c[q])); mb[i] = mc[q]; mc[q] = -1; } break;
        case 31: OP("static-upcast", i, k); b[i] = gtl::static_pointer_cast<B>(d[k]); mb[i] = md[k]; break;
        case 32: OP("static-upcast-rvalue", i, k); b[i] = gtl::static_pointer_cast<B>(std::move(d[k])); mb[i] = md[k]; md[k] = -1; break;
        case 33: case 34: // links: only to objects created later, so that there are no cycles
            if (mb[i] >= 0 && mb[j] > mb[i]) { OP("link", i, j); b[i]->next = b[j]; next_of[size_t(mb[i])] = mb[j]; } break;
        case 35: if (mb[i] >= 0) { OP("advance", i, 0); int nx = next_of[size_t(mb[i])]; b[i] = b[i]->next; mb[i] = nx; } break;
        case 36: if (mb[i] >= 0) { OP("advance-raw", i, 0); int nx = next_of[size_t(mb[i])]; if (r.chance(50)) b[i] = b[i]->next.get(); else b[i].reset(b[i]->next.get()); mb[i] = nx; } break;
        case 37: if (mb[i] >= 0) { OP("advance-move", i, 0); int id = mb[i], nx = next_of[size_t(id)]; b[i] = std::move(b[i]->next); mb[i] = nx; next_of[size_t(id)] = -1; } break;
        case 38: if (mb[i] >= 0) { OP("unlink", i, 0); b[i]->next.reset(); next_of[size_t(mb[i])] = -1; } break;
        case 39: if (mb[i] >= 0) { OP("copy-object", i, 0); B t(*b[i]); VCHECK(t.use_count() == 0, "count", "[%s] a copied object starts with a count of %u", nm, t.use_count()); PB h(new B(*b[i])); VCHECK(h->use_count() == 1, "count", "[%s] a copied object starts with a count of %u", nm, h->use_count()); } break;
        case 40: if (mb[i] >= 0 && mb[j] >= 0 && mb[i] != mb[j]) { OP("assign-object", i, j); B& x = *b[i]; auto keep = x.next; int id = x.id; uint64_t tg = x.tag; auto uc = x.use_count(); static_cast<gtl::intrusive_ref_counter<B, P>&>(x) = static_cast<gtl::intrusive_ref_counter<B, P>&>(*b[j]); VCHECK(x.use_count() == uc && x.id == id && x.tag == tg, "count", "[%s] assigning to an object changes its count", nm); } break;
        case 41: { OP("compare", i, j); B *x = b[i].get(), *y = b[j].get(); VCHECK((b[i] == b[j]) == (x == y) && (b[i] != b[j]) == (x != y) && (b[i] == y) == (x == y) && (b[i] != y) == (x != y) && (x == b[j]) == (x == y) && (x != b[j]) == (x != y), "compare", "[%s] == disagrees with the pointers", nm);
            VCHECK((b[i] < b[j]) == std::less<B*>()(x, y), "compare", "[%s] < disagrees with the pointers", nm); VCHECK((b[i] == nullptr) == !x && (nullptr == b[i]) == !x && (b[i] != nullptr) == !!x && (nullptr != b[i]) == !!x && !b[i] == !x, "compare", "[%s] comparison with nullptr", nm);
            VCHECK((b[i] == c[q]) == (x == c[q].get()) && (b[i] != c[q]) == (x != c[q].get()), "compare", "[%s] == with const", nm);
            VCHECK(std::hash<PB>()(b[i]) == std::hash<B*>()(x) && hash_value(b[i]) == std::hash<B*>()(x) && get_pointer(b[i]) == x, "compare", "[%s] hash", nm);
            std::ostringstream s1, s2; s1 << b[i]; s2 << static_cast<const void*>(x); VCHECK(s1.str() == s2.str(), "compare", "[%s] << prints %s", nm, s1.str().c_str()); if (x) VCHECK(&*b[i] == x && b[i]->kind() == kind[size_t(mb[i])], "pointer", "[%s] dereference", nm); break; }
        case 42: { OP("temporary", i, j); std::vector<PB> v(r.below(6), b[i]); v.push_back(b[j]); v.insert(v.begin(), b[i]); auto v2 = v; v.erase(v.begin()); PB f = [](PB p) { return p; }(b[j]); VCHECK(f == b[j], "pointer", "[%s] pass and return", nm); if (mb[i] >= 0) { size_t base = 0; for (auto& x : v) base += x == b[i]; for (auto& x : v2) base += x == b[i]; int now = owners(mb[i]); auto al = live(); for (size_t z = 0; z < raw.size(); ++z) now += al[z] && next_of[z] == mb[i]; VCHECK(b[i]->use_count() == unsigned(now) + base + (f == b[i] ? 1 : 0), "count", "[%s] use_count with temporaries", nm); } break; }
        case 43: OP("self", i, k); { auto& s = b[i]; s = s; auto& dd = d[k]; dd = dd; s.swap(s); s = s.get(); s.reset(s.get()); s = *&s; } break;
        }
        check(op); cnt("states")++;
    }
    for (int id : det) intrusive_ptr_release(raw[size_t(id)]); det.clear(); check("release");
    cnt("objects") += raw.size(); }
    for (size_t i = 0; i < raw.size(); ++i) VCHECK(w.dtors[i] == 1, "lifetime", "[%s] %d destructions at the end", nm, w.dtors[i]);
    g_w = nullptr; VCHECK(g_live == 0, "lifetime", "[%s] objects leaked", nm);
}
void iface_case(Rng& r) { // abstract base with free-function hooks
    { std::vector<gtl::intrusive_ptr<Iface>> v; std::vector<gtl::intrusive_ptr<Impl>> u; int made = 0;
    for (int i = 0; i < 60; ++i) { oplog().add("iface", uint64_t(i)); switch (r.below(7)) {
        case 0: u.emplace_back(new Impl(made++)); break;
        case 1: if (!u.empty()) v.push_back(u[r.below(u.size())]); break;
        case 2: if (!u.empty()) { size_t k = r.below(u.size()); Impl* raw = u[k].get(); unsigned before = raw ? raw->rc : 0; gtl::intrusive_ptr<Iface> t = std::move(u[k]); VCHECK(t.get() == raw, "pointer", "converting move to an abstract base"); if (raw) VCHECK(raw->rc == before + (u[k] ? 1u : 0u), "count", "count after a converting move"); v.push_back(std::move(t)); } break;
        case 3: if (!v.empty()) { size_t k = r.below(v.size()); v.erase(v.begin() + long(k)); } break;
        case 4: if (!u.empty()) { size_t k = r.below(u.size()); u.erase(u.begin() + long(k)); } break;
        case 5: if (!v.empty() && !u.empty()) { auto& t = v[r.below(v.size())]; if (r.chance(50)) t = u[r.below(u.size())]; else t = std::move(u[r.below(u.size())]); } break;
        case 6: if (!v.empty()) { auto t = gtl::dynamic_pointer_cast<Impl>(v[r.below(v.size())]); u.push_back(t); } break; }
        std::map<Iface*, unsigned> m; for (auto& x : v) if (x) m[x.get()]++; for (auto& x : u) if (x) m[x.get()]++;
        for (auto& [p, n] : m) VCHECK(p->rc == n, "count", "iface: count is %u with %u owners", p->rc, n); VCHECK(Impl::live == int(m.size()), "lifetime", "iface: %d objects alive, %zu owned", Impl::live, m.size()); } }
    VCHECK(Impl::live == 0, "lifetime", "iface: objects leaked");
}
void c_intr(Rng& r, uint64_t i) { switch (i % 5) { case 0: case 1: return intr_case<gtl::thread_unsafe_counter>(r, "unsafe"); case 2: case 3: return intr_case<gtl::thread_safe_counter>(r, "safe"); case 4: return iface_case(r); } }

// ------------------------------------------------------------------ threads
struct SharedObj : gtl::intrusive_ref_counter<SharedObj, gtl::thread_safe_counter> {
    int64_t slot[8] = {}; uint64_t tag; std::atomic<int>* dead; std::vector<int64_t>* seen;
    SharedObj(std::atomic<int>* d, std::vector<int64_t>* s) : tag(ALIVE ^ uintptr_t(this)), dead(d), seen(s) { g_live++; }
    ~SharedObj() { VCHECK(tag == (ALIVE ^ uintptr_t(this)), "lifetime", "an object is destroyed twice"); tag = DEAD; for (int64_t s : slot) seen->push_back(s); dead->fetch_add(1); g_live--; }
    void use(int t) { VCHECK(tag == (ALIVE ^ uintptr_t(this)), "lifetime", "an object is used after its destruction"); slot[t]++; }
};
void c_intrmt(Rng& r, uint64_t) {
    using PM = gtl::intrusive_ptr<SharedObj>;
    int T = int(r.range(2, 4)); uint64_t seed = r.next(); g_perturb = r.pick<unsigned>({ 0, 30, 200 }); size_t NO = r.range(1, 4), n = r.pick<size_t>({ 10, 60 }); bool tight = r.chance(50);
    oplog().add("threads", uint64_t(T), seed); oplog().add("objects", NO, tight); oplog().add("ops", n);
    std::vector<std::atomic<int>> dead(NO); for (auto& x : dead) x = 0; std::vector<std::vector<int64_t>> seen(NO); std::vector<std::vector<PM>> own((size_t(T))); std::vector<std::vector<int64_t>> used(size_t(T), std::vector<int64_t>(NO, 0)); std::vector<SharedObj*> raw;
    for (size_t o = 0; o < NO; ++o) { PM p(new SharedObj(&dead[o], &seen[o])); raw.push_back(p.get()); for (auto& v : own) v.push_back(p); }
    const std::vector<PM>* sharedp = tight ? nullptr : new std::vector<PM>(own[0]); const auto* shared = sharedp;
    for (size_t o = 0; o < NO; ++o) VCHECK(raw[o]->use_count() == unsigned(T) + (shared ? 1 : 0), "count", "use_count before the run");
    team(T, seed, [&](int t) {
        Rng q(seed ^ mix64(uint64_t(t) + 3)); std::vector<std::vector<PM>> mine(NO); for (size_t o = 0; o < NO; ++o) mine[o].push_back(std::move(own[size_t(t)][o])); own[size_t(t)].clear();
        for (size_t i = 0; i < n; ++i) {
            size_t o = q.below(NO); auto& m = mine[o]; perturb();
            switch (q.below(7)) {
            case 0: case 1: if (!m.empty()) { m.push_back(m.back()); } else if (shared) m.push_back((*shared)[o]); break;
            case 2: case 3: if (!m.empty()) { m.back()->use(t); used[size_t(t)][o]++; m.pop_back(); } break;
            case 4: if (!m.empty()) { PM a = m.back(); PM c = std::move(a); c->use(t); used[size_t(t)][o]++; VCHECK(c->use_count() >= 2, "count", "use_count %u with two owners here", c->use_count()); } break;
            case 5: if (shared) { PM a = (*shared)[o]; a->use(t); used[size_t(t)][o]++; a.reset(); } break;
            case 6: if (!m.empty()) { m.back() = PM(m.back()); m.back() = m.back().get(); } break;
            }
            for (size_t z = 0; z < NO; ++z) if (!mine[z].empty()) VCHECK(dead[z].load() == 0, "lifetime", "an object is destroyed while it is owned");
        }
        for (size_t o = 0; o < NO; ++o) while (!mine[o].empty()) { mine[o].back()->use(t); used[size_t(t)][o]++; perturb(); mine[o].pop_back(); }
    });
    g_perturb = 0;
    if (shared) { for (size_t o = 0; o < NO; ++o) VCHECK(dead[o] == 0 && raw[o]->use_count() == 1, "count", "use_count after the run is not 1"); delete sharedp; }
    for (size_t o = 0; o < NO; ++o) { VCHECK(dead[o] == 1, "lifetime", "an object was destroyed %d times", dead[o].load()); for (int t = 0; t < T; ++t) { VCHECK(seen[o][size_t(t)] == used[size_t(t)][o], "order", "the destructor does not see what an owner wrote"); cnt("uses") += uint64_t(used[size_t(t)][o]); } }
    VCHECK(g_live == 0, "lifetime", "objects leaked"); cnt("objects") += NO;
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "intr", c_intr }, { "intrmt", c_intrmt } }); }
