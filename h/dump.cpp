// P12: dump and load of flat hash containers.
#include "hash_specs.hpp"
#include <array>
#include <shared_mutex>
#include <sys/stat.h>
#include <iostream>
using namespace vf;
// archives in memory, of the shape the library expects
struct MemOut { std::string b; bool saveBinary(const void* p, size_t n) { b.append(static_cast<const char*>(p), n); return true; } };
struct MemIn { const std::string& b; size_t pos = 0; bool loadBinary(void* p, size_t n) { VCHECK(pos + n <= b.size(), "archive", "load reads %zu bytes at %zu of an archive of %zu", n, pos, b.size()); memcpy(p, b.data() + pos, n); pos += n; return true; } };

// cereal's binary archives have this shape; the library adds save and load functions for them if cereal is there
namespace cereal { using BinaryOutputArchive = ::MemOut; using BinaryInputArchive = ::MemIn; }
#define CEREAL_SIZE_TYPE uint64_t
#include <gtl/phmap_dump.hpp>

struct Big { int64_t a = 0; char pad[37] = {}; int64_t b = 0; Big() = default; Big(int64_t x) : a(x), b(~x) { memset(pad, int(x), sizeof pad); }
    int64_t get() const { VCHECK(b == ~a && pad[0] == char(a) && pad[36] == char(a), "content", "an element came back mangled"); return a; } bool operator==(const Big& o) const { return get() == o.get(); } };
inline int64_t vget(const Big& b) { return b.get(); }
inline int64_t vget(int64_t b) { return b; }
struct HD { HState s; template<class T> size_t operator()(const T& k) const { return weak_hash(s.mode, uint64_t(int64_t(k)) ^ uint64_t(s.mod)); } };
struct ED { HState s; template<class T> bool operator()(const T& a, const T& b) const { return a == b; } };

// the same archive as written before the format had a version and the growth count; empty if it is not of the known form
template<size_t SLOT> std::string earlier_format(const std::string& b, bool parallel) {
    std::string o; size_t p = 0; bool ok = true; auto u64 = [&]() { uint64_t x = 0; if (p + 8 > b.size()) ok = false; else { memcpy(&x, b.data() + p, 8); p += 8; } return x; };
    size_t n = 1; if (parallel) { n = u64(); if (n == 0 || n > 4096) return ""; o.append(b, 0, 8); }
    for (size_t i = 0; i < n && ok; ++i) {
        uint64_t v = u64(); if (v != ~uint64_t(0) - 31) return ""; size_t at = p; uint64_t size = u64(), cap = u64(); if (!ok || cap > (1u << 20) || size > cap) return "";
        o.append(b, at, 16); if (!size) continue; u64(); size_t len = cap + 17 + SLOT * cap; if (!ok || p + len > b.size()) return ""; o.append(b, p, len); p += len; }
    return ok && p == b.size() ? o : std::string(); }

template<class C, bool MAP> struct W {
    std::unique_ptr<C> c; std::map<int64_t, int64_t> m;
    static C make(size_t b, HState hs, int id) {
        using A = typename C::allocator_type;
        if constexpr (std::is_constructible_v<A, int>) return C(b, HD{ hs }, ED{ hs }, A(id)); else return C(b, HD{ hs }, ED{ hs });
    }
    void put(int64_t k, int64_t v) { if constexpr (MAP) { c->insert_or_assign(typename C::key_type(k), typename C::mapped_type(v)); m[k] = v; } else { c->insert(typename C::key_type(k)); m[k] = 1; } }
    void del(int64_t k) { size_t n = c->erase(typename C::key_type(k)); VCHECK(n == m.erase(k), "content", "erase of key %lld returns %zu", (long long)k, n); }
    void work(Rng& r, size_t n, size_t U) { // some history
        unsigned pe = unsigned(r.pick<int>({ 0, 20, 45, 55 }));
        for (size_t i = 0; i < n; ++i) {
            int64_t k = int64_t(r.below(U));
            if (r.chance(pe)) del(k); else put(k, int64_t(r.below(100000)));
            if (r.chance(1)) { if (r.chance(50)) c->reserve(r.below(200)); else c->rehash(r.pick<size_t>({ 0, 0, 50 })); }
            if (r.chance(1) && r.chance(30)) { c->clear(); m.clear(); }
        }
        if (r.chance(8)) while (!m.empty()) del(m.begin()->first); // empty, with capacity
    }
    void check(const char* what) const {
        VCHECK(c->size() == m.size(), "content", "%s: size %zu, expected %zu", what, c->size(), m.size());
        size_t n = 0;
        for (auto& e : *c) { ++n; int64_t k; if constexpr (MAP) k = int64_t(e.first); else k = int64_t(e); auto it = m.find(k); VCHECK(it != m.end(), "content", "%s: iteration yields key %lld", what, (long long)k);
            if constexpr (MAP) VCHECK(vget(e.second) == it->second, "content", "%s: key %lld has value %lld, not %lld", what, (long long)k, (long long)vget(e.second), (long long)it->second); }
        VCHECK(n == m.size(), "content", "%s: iteration yields %zu elements, not %zu", what, n, m.size());
        for (auto& x : m) { auto it = c->find(typename C::key_type(x.first)); VCHECK(it != c->end(), "content", "%s: key %lld is not found", what, (long long)x.first); }
        for (int64_t k = 0; k < 20; ++k) VCHECK(c->contains(typename C::key_type(k)) == (m.count(k) == 1), "content", "%s: contains(%lld) is wrong", what, (long long)k);
        VCHECK(c->capacity() >= c->size(), "content", "%s: capacity %zu, size %zu", what, c->capacity(), c->size());
    }
};
template<class C, bool MAP> void dump_case(Rng& r, const char* nm) {
    using X = W<C, MAP>;
    size_t maxk = sizeof(typename C::key_type) == 1 ? 120 : 100000;
    {
        HState hs; hs.mode = int(r.below(kHashModes)); hs.mod = int64_t(r.below(5));
        int nsrc = int(r.range(1, 3));
        std::vector<X> src{ size_t(nsrc) };
        oplog().add(nm, uint64_t(nsrc), uint64_t(hs.mode));
        bool file = r.chance(30), old = !file && r.chance(25), viacereal = !file && !old && r.chance(25);
        std::string path = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/dump." + std::to_string(getpid());
        MemOut mo; auto fo = file ? std::make_unique<gtl::BinaryOutputArchive>(path.c_str()) : nullptr;
        std::vector<int64_t> raw;
        for (auto& s : src) {
            s.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 1));
            size_t n = r.pick<size_t>({ 0, 1, 5, 14, 15, 30, 100, 400 }), U = std::min(maxk, r.pick<size_t>({ 5, 20, 100, 1000 }));
            oplog().add("history", n, U);
            s.work(r, n, U); s.check("before the dump");
            size_t cap = s.c->capacity();
            bool ok = file ? (r.chance(50) ? s.c->phmap_dump(*fo) : fo->saveBinary(*s.c)) : old ? true : !viacereal ? s.c->phmap_dump(mo) : (cereal::save(mo, std::as_const(*s.c)), cnt("cereal")++, true);
            if (old) { MemOut one; ok = s.c->phmap_dump(one); std::string e = earlier_format<sizeof(typename C::value_type)>(one.b, requires { C::subcnt(); }); if (!e.empty()) cnt("earlier_format")++; mo.b += e.empty() ? one.b : e; }
            VCHECK(ok, "dump", "dump [%s] reports failure", nm);
            s.check("the original after the dump"); VCHECK(s.c->capacity() == cap, "dump", "dump [%s] changes the capacity of the original", nm);
            raw.push_back(int64_t(r.next())); if (file) fo->saveBinary(raw.back()); else mo.saveBinary(&raw.back(), 8);
        }
        fo.reset();
        MemIn mi{ mo.b }; auto fi = file ? std::make_unique<gtl::BinaryInputArchive>(path.c_str()) : nullptr;
        std::vector<X> dst{ size_t(nsrc) };
        int i = 0;
        for (auto& s : src) {
            X& d = dst[size_t(i)];
            d.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 2));
            if (r.chance(60)) d.work(r, r.pick<size_t>({ 1, 10, 200 }), 100);
            oplog().add("load over", d.m.size(), s.m.size());
            if constexpr (requires { C::subcnt(); }) if (r.chance(10)) { // an archive of a container with another number of submaps
                MemOut z; s.c->phmap_dump(z); uint64_t n = 0; memcpy(&n, z.b.data(), 8);
                if (n == C::subcnt()) { n = r.chance(50) ? n * 2 : n / 2; memcpy(&z.b[0], &n, 8); MemIn zi{ z.b }; auto* rb = std::cerr.rdbuf(nullptr); bool ok = d.c->phmap_load(zi); std::cerr.rdbuf(rb); std::cerr.clear(); VCHECK(!ok, "load", "load [%s] accepts an archive of %llu submaps", nm, (unsigned long long)n); d.check("a container after a refused load"); cnt("refused_loads")++; } }
            if (i && r.chance(20)) d.c = std::move(dst[size_t(i) - 1].c), dst[size_t(i) - 1].m.clear(); // load over something loaded
            bool ok = file ? (r.chance(50) ? d.c->phmap_load(*fi) : fi->loadBinary(d.c.get())) : !viacereal ? d.c->phmap_load(mi) : (cereal::load(mi, *d.c), true);
            VCHECK(ok, "load", "load [%s] reports failure", nm);
            d.m = s.m; d.check("the loaded container");
            int64_t x = 0; if (file) fi->loadBinary(&x); else mi.loadBinary(&x, 8);
            VCHECK(x == raw[size_t(i)], "load", "load [%s] leaves the archive at a wrong position", nm);
            VCHECK(*d.c == *s.c, "load", "the loaded container [%s] does not compare equal to the original", nm);
            VCHECK(d.c->capacity() == s.c->capacity() || s.m.empty(), "load", "the loaded container [%s] has capacity %zu, the original %zu", nm, d.c->capacity(), s.c->capacity());
            cnt("loads")++; cnt("elements_loaded") += s.m.size(); if (s.m.empty()) cnt("empty_loads")++;
            ++i;
        }
        if (!file) VCHECK(mi.pos == mo.b.size(), "load", "load [%s] leaves %zu bytes of the archive", nm, mo.b.size() - mi.pos);
        fi.reset(); if (file) unlink(path.c_str());
        // the loaded containers live on, independently of the originals
        for (auto& d : dst) if (d.c) { d.work(r, r.pick<size_t>({ 0, 20, 300 }), std::min(maxk, r.pick<size_t>({ 20, 500 }))); d.check("a loaded container after more operations"); }
        for (auto& s : src) { s.check("the original after the load"); s.work(r, 30, 100); s.check("the original after more operations"); }
        for (auto& d : dst) if (d.c) { C e(*d.c); VCHECK(e == *d.c, "load", "copy of a loaded container [%s] differs", nm); d.c->rehash(0); d.check("after rehash(0)"); d.c->clear(); VCHECK(d.c->empty() && d.c->begin() == d.c->end(), "content", "clear after load"); }
    }
    check_no_leaks(nm);
}
// loading when memory runs out: the container stays valid, nothing leaks, and a later load works
template<class C, bool MAP> void fault_case(Rng& r, const char* nm) {
    using X = W<C, MAP>;
    { HState hs; hs.mode = int(r.below(kHashModes)); hs.mod = int64_t(r.below(5)); X s, d; oplog().add(nm, uint64_t(hs.mode));
      s.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 1)); s.work(r, r.pick<size_t>({ 1, 5, 15, 100, 300 }), 200); MemOut mo; VCHECK(s.c->phmap_dump(mo), "dump", "dump [%s] reports failure", nm);
      for (long at = 1; at < 12; ++at) {
          d.m.clear(); d.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 2)); if (r.chance(70)) d.work(r, r.pick<size_t>({ 1, 10, 200 }), 100);
          bool fired = false; { MemIn mi{ mo.b }; arm(F_ALLOC, at); try { (void)d.c->phmap_load(mi); } catch (const Fault&) { fired = true; } disarm(); } oplog().add("load", uint64_t(at), fired);
          if (fired) { cnt("faults_injected")++; size_t n = 0; for (auto& e : *d.c) { ++n; int64_t k; if constexpr (MAP) k = int64_t(e.first); else k = int64_t(e); VCHECK(d.c->contains(typename C::key_type(k)), "fault-content", "key %lld is iterated, not found [%s]", (long long)k, nm); }
              VCHECK(n == d.c->size() && d.c->capacity() >= n, "fault-size", "after a load without memory [%s] has size %zu and %zu elements", nm, d.c->size(), n);
              unsigned w = unsigned(r.below(4)); if (w == 0) { d.c.reset(); d.c = std::make_unique<C>(X::make(0, hs, 2)); } else if (w == 1) d.c->clear(); else if (w == 2) { C t(std::move(*d.c)); VCHECK(t.size() == n, "fault-size", "move after a failed load [%s]", nm); }
              if (w < 3) { d.m.clear(); d.c->clear(); d.work(r, 30, 40); d.check("a container used after a failed load"); }
              MemIn mi{ mo.b }; VCHECK(d.c->phmap_load(mi), "load", "load [%s] reports failure", nm); d.m = s.m; d.check("the container loaded after a failed load"); }
          else { d.m = s.m; d.check("the loaded container"); break; } }
      s.check("the original"); }
    check_no_leaks(nm);
}
// an archive that ends early: the load says so, and leaves a container that is valid and can be used and loaded again
struct CutIn { const std::string& b; size_t end; size_t pos = 0; bool loadBinary(void* p, size_t n) { size_t k = std::min(n, end - pos); memcpy(p, b.data() + pos, k); pos += k; return k == n; } };
struct CutOut { size_t room; std::string b; bool saveBinary(const void* p, size_t n) { size_t k = std::min(n, room - b.size()); b.append(static_cast<const char*>(p), k); return k == n; } };
template<class C, bool MAP> void cut_case(Rng& r, const char* nm) {
    using X = W<C, MAP>; static constexpr bool par = requires { C::subcnt(); };
    { HState hs; hs.mode = int(r.below(kHashModes)); hs.mod = int64_t(r.below(5)); X s, d; oplog().add(nm, uint64_t(hs.mode));
      std::string path = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/cut." + std::to_string(getpid());
      s.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 1)); s.work(r, r.pick<size_t>({ 0, 1, 5, 15, 100, 300 }), 100); MemOut mo; VCHECK(s.c->phmap_dump(mo), "dump", "dump [%s] reports failure", nm);
      d.c = std::make_unique<C>(X::make(r.chance(50) ? 0 : r.below(100), hs, 2));
      struct Quiet { std::streambuf* rb = std::cerr.rdbuf(nullptr); ~Quiet() { std::cerr.rdbuf(rb); std::cerr.clear(); } };
      for (int t = 0; t < 12; ++t) {
          if (r.chance(70)) d.work(r, r.pick<size_t>({ 1, 10, 200 }), 100);
          size_t L = mo.b.size(), end = r.chance(40) ? r.below(std::min<size_t>(L, 60)) : r.chance(30) ? L - 1 - r.below(std::min<size_t>(L, 30)) : r.below(L); unsigned how = unsigned(r.below(8)); oplog().add("load an incomplete archive", end, how); bool ok;
          { Quiet q; if (how == 0) { unlink(path.c_str()); gtl::BinaryInputArchive fi(path.c_str()); ok = r.chance(50) ? d.c->phmap_load(fi) : fi.loadBinary(d.c.get()); cnt("missing_files")++; }
            else if (how < 4) { FILE* f = fopen(path.c_str(), "wb"); if (!f) { cnt("no_scratch_file")++; return; } fwrite(mo.b.data(), 1, end, f); fclose(f); gtl::BinaryInputArchive fi(path.c_str()); ok = r.chance(50) ? d.c->phmap_load(fi) : fi.loadBinary(d.c.get()); unlink(path.c_str()); cnt("cut_files")++; }
            else { CutIn ci{ mo.b, end }; ok = d.c->phmap_load(ci); cnt("cut_archives")++; } }
          VCHECK(!ok, "load", "load [%s] accepts an archive cut to %zu of %zu bytes", nm, end, L);
          size_t n = 0; std::map<int64_t, int64_t> left; for (auto& e : *d.c) { ++n; int64_t k, v = 1; if constexpr (MAP) { k = int64_t(e.first); v = vget(e.second); } else k = int64_t(e); VCHECK(left.emplace(k, v).second, "cut-content", "key %lld is iterated twice [%s]", (long long)k, nm);
              auto a = s.m.find(k), b = d.m.find(k); VCHECK((a != s.m.end() && a->second == v) || (b != d.m.end() && b->second == v), "cut-content", "after an incomplete load [%s] holds key %lld with value %lld, from nowhere", nm, (long long)k, (long long)v); }
          VCHECK(n == d.c->size(), "cut-content", "after an incomplete load [%s] has size %zu and %zu elements", nm, d.c->size(), n);
          if (!par && how > 0) VCHECK(n == 0 && d.c->empty(), "cut-content", "after an incomplete load [%s] holds %zu elements", nm, n);
          d.m = left; d.check("a container after an incomplete load");
          if (r.chance(40)) { d.work(r, 40, 60); d.check("a container used after an incomplete load"); }
          if (r.chance(30)) { MemIn mi{ mo.b }; VCHECK(d.c->phmap_load(mi), "load", "load [%s] reports failure", nm); d.m = s.m; d.check("the container loaded after an incomplete load"); }
          if (r.chance(20)) { CutIn ci{ mo.b, L }; VCHECK(d.c->phmap_load(ci), "load", "load [%s] of the whole archive reports failure", nm); d.m = s.m; d.check("the loaded container"); }
          if (r.chance(30)) { Quiet q; CutOut co{ end, {} }; VCHECK(!s.c->phmap_dump(co), "dump", "dump [%s] into an archive with room for %zu of %zu bytes reports success", nm, end, L); s.check("the original after an incomplete dump"); cnt("incomplete_dumps")++; }
          if (r.chance(10)) { Quiet q; gtl::BinaryOutputArchive fo((path + ".d/no/such/folder").c_str()); VCHECK(!(r.chance(50) ? s.c->phmap_dump(fo) : fo.saveBinary(*s.c)), "dump", "dump [%s] into a file that cannot be opened reports success", nm); cnt("incomplete_dumps")++; }
      }
      s.check("the original"); }
    check_no_leaks(nm);
}
template<class K, class V> using FM = gtl::flat_hash_map<K, V, HD, ED>;
template<class K, class V, size_t N, class M> using PM = gtl::parallel_flat_hash_map<K, V, HD, ED, std::allocator<std::pair<const K, V>>, N, M>;
int main(int argc, char** argv) {
    return run_main(argc, argv, { { "dump", [](Rng& r, uint64_t i) { switch (i % 9) {
        case 0: dump_case<FM<int64_t, int64_t>, true>(r, "flat_hash_map<int64,int64>"); break;
        case 1: dump_case<gtl::flat_hash_set<int32_t, HD, ED>, false>(r, "flat_hash_set<int32>"); break;
        case 2: dump_case<FM<int32_t, Big>, true>(r, "flat_hash_map<int32,Big>"); break;
        case 3: dump_case<PM<int64_t, Big, 2, std::mutex>, true>(r, "parallel_flat_hash_map, 4 submaps"); break;
        case 4: dump_case<PM<int64_t, int64_t, 0, gtl::NullMutex>, true>(r, "parallel_flat_hash_map, 1 submap"); break;
        case 5: dump_case<gtl::parallel_flat_hash_set<int64_t, HD, ED, std::allocator<int64_t>, 4, std::shared_mutex>, false>(r, "parallel_flat_hash_set, 16 submaps"); break;
        case 6: dump_case<gtl::flat_hash_map<int64_t, int64_t, HD, ED, TAlloc<std::pair<const int64_t, int64_t>>>, true>(r, "flat_hash_map with its own allocator"); break;
        case 7: dump_case<gtl::flat_hash_set<uint8_t, HD, ED>, false>(r, "flat_hash_set<uint8>"); break;
        default: dump_case<gtl::parallel_flat_hash_map<int64_t, Big, HD, ED, TAlloc<std::pair<const int64_t, Big>>, 3, std::mutex>, true>(r, "parallel map with its own allocator"); break; } } },
        { "cut", [](Rng& r, uint64_t i) { switch (i % 5) {
        case 0: cut_case<gtl::flat_hash_map<int64_t, int64_t, HD, ED, TAlloc<std::pair<const int64_t, int64_t>>>, true>(r, "flat_hash_map"); break;
        case 1: cut_case<gtl::flat_hash_set<int32_t, HD, ED, TAlloc<int32_t>>, false>(r, "flat_hash_set"); break;
        case 2: cut_case<FM<int32_t, Big>, true>(r, "flat_hash_map<int32,Big>"); break;
        case 3: cut_case<gtl::parallel_flat_hash_set<int64_t, HD, ED, std::allocator<int64_t>, 4, std::shared_mutex>, false>(r, "parallel_flat_hash_set"); break;
        default: cut_case<gtl::parallel_flat_hash_map<int64_t, Big, HD, ED, TAlloc<std::pair<const int64_t, Big>>, 2, std::mutex>, true>(r, "parallel map"); break; } } },
        { "fault", [](Rng& r, uint64_t i) { switch (i % 3) {
        case 0: fault_case<gtl::flat_hash_map<int64_t, int64_t, HD, ED, TAlloc<std::pair<const int64_t, int64_t>>>, true>(r, "flat_hash_map"); break;
        case 1: fault_case<gtl::flat_hash_set<int32_t, HD, ED, TAlloc<int32_t>>, false>(r, "flat_hash_set"); break;
        default: fault_case<gtl::parallel_flat_hash_map<int64_t, Big, HD, ED, TAlloc<std::pair<const int64_t, Big>>, 2, std::mutex>, true>(r, "parallel map"); break; } } } });
}
