// Random operation histories on a few hash containers, each mirrored by an exact model.
#pragma once
#include "hash_specs.hpp"
#include <iterator>
#include <list>
#include <sstream>

namespace vf {

// a strict single-pass iterator over a vector (input iterator category)
template<class T> struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const std::vector<T>* v = nullptr; size_t* pos = nullptr; size_t end = 0; bool is_end = true;
    reference operator*() const { return (*v)[*pos]; }
    pointer operator->() const { return &(*v)[*pos]; }
    InIt& operator++() { ++*pos; return *this; }
    InIt operator++(int) { InIt r = *this; ++*pos; return r; }
    bool at_end() const { return is_end || *pos >= end; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.at_end() == b.at_end(); }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

struct MV { int64_t key, val; };
using Model = std::map<int64_t, MV>; // by canonical key

enum Profile { PR_MIX, PR_GROW, PR_CHURN, PR_ERASE, PR_VALUE, PR_STABLE, PR_NPROF };

template<class S>
struct World {
    using C    = typename S::Cont;
    using Key  = typename C::key_type;
    using VT   = typename C::value_type;
    using Map  = typename mapped_of<C>::type;
    using iter = typename C::iterator;
    static constexpr bool copyable = std::is_copy_constructible_v<Map>;
    static constexpr int  NC = 3;

    Rng&               r;
    HState             hs;
    std::unique_ptr<C> c[NC];
    Model              m[NC];
    size_t             maxsize[NC] = {}, maxres[NC] = {}; // for the capacity bound
    size_t             budget[NC]  = {};                  // reserve(n) promise
    size_t             U;       // key universe
    int64_t            nextval = 1;
    bool               track_addr = false;
    std::map<int64_t, const void*> addr[NC];

    World(Rng& rng, size_t universe, HState h) : r(rng), hs(h), U(universe) {
        for (int i = 0; i < NC; ++i) {
            size_t b = r.chance(25) ? r.below(40) : 0;
            c[i] = std::make_unique<C>(S::make(b, hs));
            maxres[i] = c[i]->capacity();
        }
    }

    int64_t rkey() { return int64_t(r.below(U)); }
    int64_t cn(int64_t k) const { return S::stateful ? canon(hs, k) : k; }
    static const Key& key_of(const VT& v) { if constexpr (S::is_map) return v.first; else return v; }
    static int64_t    val_of(const VT& v) { if constexpr (S::is_map) return id_of(v.second); else return 0; }
    VT make_vt(int64_t k, int64_t v) { if constexpr (S::is_map) return VT(make_of<Key>(k), make_of<Map>(v)); else { (void)v; return make_of<Key>(k); } }

    void log(const char* n, int i, int64_t k = 0) { oplog().add(n, uint64_t(i), uint64_t(k)); }

    void expect_elem(const char* op, const VT& e, const MV& mv) {
        VCHECK(id_of(key_of(e)) == mv.key, "content", "%s [%s]: element has key %lld, expected %lld", op, S::name, (long long)id_of(key_of(e)), (long long)mv.key);
        if constexpr (S::is_map)
            VCHECK(val_of(e) == mv.val, "content", "%s [%s]: key %lld has value %lld, expected %lld", op, S::name, (long long)mv.key, (long long)val_of(e), (long long)mv.val);
    }
    // the model's side of inserting (k,v); returns whether it is new
    bool m_insert(int i, int64_t k, int64_t v) {
        bool ins = m[i].emplace(cn(k), MV{ k, S::is_map ? v : 0 }).second;
        if (m[i].size() > maxsize[i]) maxsize[i] = m[i].size();
        return ins;
    }
    void after_insert(const char* op, int i, int64_t k, bool expect_new, std::pair<iter, bool> res) {
        VCHECK(res.second == expect_new, "result", "%s(%lld) [%s] reported %s, expected %s", op, (long long)k, S::name, res.second ? "inserted" : "present", expect_new ? "inserted" : "present");
        after_insert_it(op, i, k, res.first);
    }
    void after_insert_it(const char* op, int i, int64_t k, iter it) {
        VCHECK(it != c[i]->end(), "result", "%s(%lld) [%s] returned end()", op, (long long)k, S::name);
        expect_elem(op, *it, m[i].at(cn(k)));
    }

    // ---- full comparison of container i with its model
    void full_check(int i, const char* after, bool probe_absent = true) {
        const C& cc = *c[i];
        VCHECK(cc.size() == m[i].size(), "size", "after %s [%s]: size() is %zu, expected %zu", after, S::name, cc.size(), m[i].size());
        VCHECK(cc.empty() == m[i].empty(), "size", "after %s [%s]: empty() wrong", after, S::name);
        size_t n = 0;
        std::unordered_set<int64_t> seen;
        for (auto it = cc.begin(); it != cc.end(); ++it) {
            VCHECK(++n <= m[i].size(), "iteration", "after %s [%s]: iteration visits more than size()=%zu elements", after, S::name, m[i].size());
            int64_t k = id_of(key_of(*it));
            VCHECK(seen.insert(cn(k)).second, "iteration", "after %s [%s]: key %lld visited twice", after, S::name, (long long)k);
            auto f = m[i].find(cn(k));
            VCHECK(f != m[i].end(), "content", "after %s [%s]: unexpected key %lld", after, S::name, (long long)k);
            expect_elem(after, *it, f->second);
        }
        VCHECK(n == m[i].size(), "iteration", "after %s [%s]: iteration visited %zu of %zu", after, S::name, n, m[i].size());
        if (probe_absent) {
            size_t probes = U < 64 ? U : 48;
            for (size_t q = 0; q < probes; ++q) {
                int64_t k = U < 64 ? int64_t(q) : rkey();
                lookup(i, k, after);
            }
        }
        cnt("full_checks")++;
        stat_max("max_size_seen", m[i].size());
        stat_max("max_capacity_seen", cc.capacity());
        if constexpr (!S::is_par) {
            size_t cap = cc.capacity();
            VCHECK(cap == 0 || ((cap + 1) & cap) == 0, "capacity", "capacity %zu", cap);
            VCHECK(cc.size() <= cap && (cap < 8 || cc.size() <= cap - cap / 8), "load", "after %s [%s]: %zu elements in capacity %zu", after, S::name, cc.size(), cap);
            size_t bound = std::max(maxres[i], size_t(maxsize[i] * 32 / 7 + 16));
            VCHECK(cap <= bound, "capacity", "after %s [%s]: capacity %zu although at most %zu elements were ever present (bound %zu)", after, S::name, cap, maxsize[i], bound);
            VCHECK(cc.load_factor() >= 0 && cc.load_factor() <= cc.max_load_factor(), "load", "load_factor %f > max_load_factor", double(cc.load_factor()));
        }
    }
    void lookup(int i, int64_t k, const char* after) {
        auto  f = m[i].find(cn(k));
        bool  present = f != m[i].end();
        const C& cc = *c[i];
        Key   key = make_of<Key>(k);
        auto  it = cc.find(key);
        VCHECK((it != cc.end()) == present, "lookup", "after %s [%s]: find(%lld) says %s, expected %s", after, S::name, (long long)k, it != cc.end() ? "present" : "absent", present ? "present" : "absent");
        if (present) expect_elem("find", *it, f->second);
        cnt("lookups")++;
        if (present) cnt("lookup_hits")++;
        switch (r.below(6)) {
        case 0: VCHECK(cc.contains(key) == present, "lookup", "contains(%lld) [%s] wrong", (long long)k, S::name); break;
        case 1: VCHECK(cc.count(key) == size_t(present), "lookup", "count(%lld) [%s] wrong", (long long)k, S::name); break;
        case 2: { auto it2 = c[i]->find(key); VCHECK((it2 != c[i]->end()) == present, "lookup", "find(%lld) [%s] wrong", (long long)k, S::name);
                  if (present) { expect_elem("find", *it2, f->second); } break; }
        case 3: if constexpr (!S::is_par) { auto er = cc.equal_range(key); size_t d = 0; for (auto x = er.first; x != er.second; ++x) ++d;
                  VCHECK(d == size_t(present), "lookup", "equal_range(%lld) [%s] has %zu elements", (long long)k, S::name, d);
                  if (present) expect_elem("equal_range", *er.first, f->second); } break;
        case 4: if constexpr (S::is_map) {
                  bool thrown = false;
                  try { int64_t v = id_of(cc.at(key)); VCHECK(present && v == f->second.val, "lookup", "at(%lld) [%s] = %lld", (long long)k, S::name, (long long)v); }
                  catch (const std::out_of_range&) { thrown = true; }
                  VCHECK(thrown == !present, "lookup", "at(%lld) [%s] throw wrong", (long long)k, S::name); } break;
        default: { size_t h = cc.hash(key); auto it3 = cc.find(key, h); VCHECK((it3 != cc.end()) == present, "lookup", "find(key,hash) [%s] wrong", S::name);
                  if (present) expect_elem("find(key,hash)", *it3, f->second);
                  VCHECK(cc.contains(key, h) == present, "lookup", "contains(key,hash) [%s] wrong", S::name); }
        }
    }

    // ---- address monitor
    void snap(int i) { addr[i].clear(); for (auto& e : *c[i]) addr[i][cn(id_of(key_of(e)))] = &e; }
    void check_addr(int i, const char* op) {
        for (auto& e : *c[i]) {
            auto f = addr[i].find(cn(id_of(key_of(e))));
            if (f == addr[i].end()) continue;
            VCHECK(f->second == &e, "stability", "%s [%s]: element %lld moved although the operation must not invalidate it", op, S::name, (long long)id_of(key_of(e)));
            cnt("addresses_checked")++;
        }
    }

    // kinds of operations with respect to address stability
    enum Eff { NONMOVING, INSERTING, RANGE, ANY }; // RANGE: may reserve for the whole range

    void step(Profile p) {
        int i = int(r.below(NC));
        if (p == PR_CHURN || p == PR_GROW) i = r.chance(90) ? 0 : i;
        size_t before = m[i].size();
        if (track_addr) for (int j = 0; j < NC; ++j) snap(j);
        const char* opname = "";
        std::map<int64_t, const void*> old_addr[NC];
        if (track_addr) for (int j = 0; j < NC; ++j) old_addr[j] = addr[j];
        size_t cap_before = c[i]->capacity();
        Eff eff = do_op(i, p, opname);
        (void)cap_before;
        if (track_addr) {
            bool grew = m[i].size() > before;
            bool ok = eff == NONMOVING || (eff == RANGE && S::is_node) || (eff == INSERTING && (S::is_node || !grew || (!S::is_par && m[i].size() <= budget[i])));
            if (ok) { check_addr(i, opname); cnt("nonmoving_ops")++; }
            for (int j = 0; j < NC; ++j) if (j != i && eff != ANY) check_addr(j, "operation on another container");
        }
    }

    Eff do_op(int i, Profile p, const char*& on) {
        C& cc = *c[i];
        unsigned w = unsigned(r.below(100));
        unsigned pins, peras; // share of inserts / erases
        switch (p) {
        case PR_GROW:  pins = 75; peras = 10; break;
        case PR_CHURN: pins = m[i].size() > U / 2 ? 38 : 52; peras = 90 - pins; break;
        case PR_ERASE: pins = 40; peras = 45; break;
        case PR_VALUE: pins = 45; peras = 15; break;
        default:       pins = 50; peras = 25; break;
        }
        if (w < pins) return op_insert(i, on);
        if (w < pins + peras) return op_erase(i, on);
        if (p == PR_CHURN && !r.chance(4)) { on = "lookup"; log(on, i); lookup(i, rkey(), "churn"); return NONMOVING; }
        if (p == PR_VALUE && r.chance(50)) return op_value(i, on);
        switch (r.below(12)) {
        case 0: { if constexpr (!S::is_par) { if (r.chance(8)) { // more than can ever be addressed: refused, nothing changes
                      size_t big = r.pick<size_t>({ SIZE_MAX, SIZE_MAX - 7, SIZE_MAX / 2, SIZE_MAX / 2 + 6, SIZE_MAX / 3 * 2 }); bool rs = r.chance(50), refused = false; on = "too-many"; log(on, i, rs); size_t cap = cc.capacity();
                      try { if (rs) cc.reserve(big); else cc.rehash(big); } catch (const std::length_error&) { refused = true; } catch (const std::bad_alloc&) { refused = true; }
                      VCHECK(refused && cc.capacity() == cap && cc.size() == m[i].size(), "capacity", "%s(%zu) is accepted or changes the container [%s]", rs ? "reserve" : "rehash", big, S::name); return NONMOVING; } }
                  size_t n = r.below(m[i].size() * 2 + 8); on = "reserve"; log(on, i, int64_t(n)); cc.reserve(n);
                  note_res(i); budget[i] = n;
                  if constexpr (!S::is_par) VCHECK(cc.capacity() >= n, "capacity", "reserve(%zu) gives capacity %zu", n, cc.capacity());
                  return ANY; }
        case 1: { size_t n = r.chance(40) ? 0 : r.below(m[i].size() * 2 + 8); on = "rehash"; log(on, i, int64_t(n)); cc.rehash(n); note_res(i); budget[i] = 0;
                  if constexpr (!S::is_par) {
                      VCHECK(cc.bucket_count() >= n && cc.bucket_count() >= m[i].size(), "capacity", "rehash(%zu) gives capacity %zu for %zu elements", n, cc.capacity(), m[i].size());
                      // rehash(0) shrinks: the next insertions restart from the present size
                      if (n == 0) { VCHECK(cc.capacity() <= std::max<size_t>(m[i].size() * 32 / 7, 16), "capacity", "rehash(0) leaves capacity %zu for %zu elements", cc.capacity(), m[i].size()); maxsize[i] = m[i].size(); maxres[i] = cc.capacity(); }
                  }
                  return ANY; }
        case 2: if (r.chance(30)) { on = "clear"; log(on, i); cc.clear(); m[i].clear(); full_check(i, "clear"); budget[i] = 0; return ANY; } [[fallthrough]];
        case 3: case 4: return op_value(i, on);
        case 5: return op_node(i, on);
        case 6: return op_merge(i, on);
        case 7: { on = "iterate-erase"; int64_t md = int64_t(r.range(2, 4)); log(on, i, md);
                  size_t visited = 0, total = m[i].size();
                  bool style = r.chance(50);
                  std::unordered_set<int64_t> seen;
                  for (auto it = cc.begin(); it != cc.end();) {
                      int64_t k = id_of(key_of(*it));
                      VCHECK(++visited <= total, "iteration", "erasing while iterating [%s] visits too many", S::name);
                      VCHECK(seen.insert(cn(k)).second, "iteration", "erasing while iterating [%s] visits %lld twice", S::name, (long long)k);
                      if (cn(k) % md == 0) { m[i].erase(cn(k)); if (style) it = cc.erase(it); else cc._erase(it++); }
                      else ++it;
                  }
                  VCHECK(visited == total, "iteration", "erasing while iterating [%s] visited %zu of %zu", S::name, visited, total);
                  budget[i] = 0; return NONMOVING; }
        case 8: { on = "erase_if"; int64_t md = int64_t(r.range(2, 5)); log(on, i, md);
                  size_t before = m[i].size();
                  for (auto it = m[i].begin(); it != m[i].end();) it = (it->first % md == 1) ? m[i].erase(it) : std::next(it);
                  size_t n;
                  if constexpr (S::is_map) n = erase_if(cc, [&](const auto& e) { return cn(id_of(e.first)) % md == 1; });
                  else n = erase_if(cc, [&](const auto& e) { return cn(id_of(e)) % md == 1; });
                  VCHECK(n == before - m[i].size(), "result", "erase_if [%s] returned %zu, expected %zu", S::name, n, before - m[i].size());
                  budget[i] = 0; return NONMOVING; }
        case 9: if constexpr (S::is_map) { // modify mapped values through iteration
                  on = "modify"; log(on, i);
                  for (auto& e : cc) if (r.chance(20)) { int64_t v = nextval++; e.second = make_of<Map>(v); m[i].at(cn(id_of(e.first))).val = v; }
                  return NONMOVING; } [[fallthrough]];
        default: { on = "lookup"; int64_t k = rkey(); log(on, i, k); lookup(i, k, "lookup"); return NONMOVING; }
        }
    }
    void note_res(int i) { maxres[i] = std::max(maxres[i], c[i]->capacity()); }

    Eff op_insert(int i, const char*& on) {
        C& cc = *c[i];
        int64_t k = rkey(), v = nextval++;
        switch (r.below(S::is_map ? 20 : 11)) {
        case 0: { on = "insert(const&)"; log(on, i, k);
                  if constexpr (copyable) { VT e = make_vt(k, v); bool n = m_insert(i, k, v); after_insert(on, i, k, n, cc.insert(e)); VCHECK(id_of(key_of(e)) == k, "argument", "insert(const&) changed its argument"); }
                  return INSERTING; }
        case 1: { on = "insert(&&)"; log(on, i, k); bool n = m_insert(i, k, v); after_insert(on, i, k, n, cc.insert(make_vt(k, v))); return INSERTING; }
        case 2: { on = "insert(hint)"; log(on, i, k); bool n = m_insert(i, k, v); (void)n; after_insert_it(on, i, k, cc.insert(cc.begin(), make_vt(k, v))); return INSERTING; }
        case 3: { on = "emplace"; log(on, i, k); bool n = m_insert(i, k, v);
                  if constexpr (S::is_map) after_insert(on, i, k, n, cc.emplace(make_of<Key>(k), make_of<Map>(v)));
                  else after_insert(on, i, k, n, cc.emplace(make_of<Key>(k)));
                  return INSERTING; }
        case 4: { on = "emplace_hint"; log(on, i, k); m_insert(i, k, v);
                  if constexpr (S::is_map) after_insert_it(on, i, k, cc.emplace_hint(cc.begin(), make_of<Key>(k), make_of<Map>(v)));
                  else after_insert_it(on, i, k, cc.emplace_hint(cc.begin(), make_of<Key>(k)));
                  return INSERTING; }
        case 5: { on = "insert(range)"; log(on, i, k);
                  size_t n = r.below(r.chance(20) ? 60 : 8);
                  std::vector<std::pair<int64_t, int64_t>> ks; for (size_t q = 0; q < n; ++q) { ks.push_back({ rkey(), nextval++ }); }
                  maxsize[i] = std::max(maxsize[i], m[i].size() + n);
                  for (auto& kv : ks) m_insert(i, kv.first, kv.second);
                  if constexpr (copyable) {
                      std::vector<std::conditional_t<S::is_map, std::pair<Key, Map>, Key>> src;
                      for (auto& kv : ks) { if constexpr (S::is_map) src.emplace_back(make_of<Key>(kv.first), make_of<Map>(kv.second)); else src.push_back(make_of<Key>(kv.first)); }
                      using T = typename decltype(src)::value_type;
                      if (r.chance(50)) cc.insert(src.begin(), src.end());
                      else { size_t pos = 0; InIt<T> b{ &src, &pos, src.size(), false }, e{}; cc.insert(b, e); }
                  } else for (auto& kv : ks) cc.insert(make_vt(kv.first, kv.second));
                  for (auto& kv : ks) lookup(i, kv.first, on);
                  return RANGE; }
        case 6: { on = "lazy_emplace"; log(on, i, k); bool n = m_insert(i, k, v); bool called = false; Key key = make_of<Key>(k);
                  auto it = cc.lazy_emplace(key, [&](const typename C::constructor& ctor) { called = true;
                      if constexpr (S::is_map) ctor(make_of<Key>(k), make_of<Map>(v)); else ctor(make_of<Key>(k)); });
                  VCHECK(called == n, "result", "lazy_emplace(%lld) [%s] called its constructor: %d, expected %d", (long long)k, S::name, called, n);
                  after_insert_it(on, i, k, it); return INSERTING; }
        case 7: { on = "emplace_with_hash"; log(on, i, k); bool n = m_insert(i, k, v); size_t h = cc.hash(make_of<Key>(k));
                  if constexpr (S::is_map) after_insert(on, i, k, n, cc.emplace_with_hash(h, make_of<Key>(k), make_of<Map>(v)));
                  else after_insert(on, i, k, n, cc.emplace_with_hash(h, make_of<Key>(k)));
                  return INSERTING; }
        case 8: { on = "emplace(nondecomposable)"; log(on, i, k); bool n = m_insert(i, k, v);
                  if constexpr (std::is_constructible_v<Key, int64_t> && !std::is_same_v<Key, int64_t> && !std::is_same_v<Key, int>) {
                      if constexpr (S::is_map) after_insert(on, i, k, n, cc.emplace(k, v)); else after_insert(on, i, k, n, cc.emplace(k));
                  } else if constexpr (std::is_same_v<Key, std::string>) {
                      std::string s = str_of(k);
                      if constexpr (S::is_map) after_insert(on, i, k, n, cc.emplace(std::piecewise_construct, std::forward_as_tuple(s.data(), s.size()), std::forward_as_tuple(make_of<Map>(v))));
                      else after_insert(on, i, k, n, cc.emplace(s.data(), s.size()));
                  } else {
                      if constexpr (S::is_map) after_insert(on, i, k, n, cc.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(make_of<Map>(v)))); else after_insert(on, i, k, n, cc.emplace(k));
                  }
                  return INSERTING; }
        case 9: { on = "insert(ilist)"; log(on, i, k); 
                  if constexpr (copyable) { int64_t k2 = rkey(), v2 = nextval++; maxsize[i] = std::max(maxsize[i], m[i].size() + 3); m_insert(i, k, v); m_insert(i, k2, v2); m_insert(i, k, v2);
                      cc.insert({ make_vt(k, v), make_vt(k2, v2), make_vt(k, v2) }); lookup(i, k, on); lookup(i, k2, on); }
                  return RANGE; }
        case 10: { on = "insert-existing"; if (m[i].empty()) return NONMOVING; auto it = m[i].lower_bound(cn(rkey())); if (it == m[i].end()) it = m[i].begin();
                  int64_t k2 = it->second.key; log(on, i, k2);
                  if constexpr (copyable) if (r.chance(30)) { on = "insert(own element)"; auto f = cc.find(make_of<Key>(k2)); VCHECK(f != cc.end(), "content", "key %lld [%s] is not found", (long long)k2, S::name); after_insert(on, i, k2, false, cc.insert(*f)); return NONMOVING; }
                  after_insert(on, i, k2, false, cc.insert(make_vt(k2, v))); return NONMOVING; }
        default: if constexpr (S::is_map) switch (r.below(8)) {
            case 0: case 1: { on = "operator[]"; log(on, i, k); bool n = m_insert(i, k, v); 
                    if (r.chance(50)) cc[make_of<Key>(k)] = make_of<Map>(v); else { Key key = make_of<Key>(k); cc[key] = make_of<Map>(v); }
                    (void)n; m[i].at(cn(k)).val = v; lookup(i, k, on); return INSERTING; }
            case 2: { on = "insert_or_assign"; log(on, i, k); bool n = m_insert(i, k, v); m[i].at(cn(k)).val = v;
                    if (r.chance(50)) after_insert(on, i, k, n, cc.insert_or_assign(make_of<Key>(k), make_of<Map>(v)));
                    else { Key key = make_of<Key>(k); after_insert(on, i, k, n, cc.insert_or_assign(key, make_of<Map>(v))); }
                    return INSERTING; }
            case 3: { on = "insert_or_assign(hint)"; log(on, i, k); m_insert(i, k, v); m[i].at(cn(k)).val = v;
                    after_insert_it(on, i, k, cc.insert_or_assign(cc.end(), make_of<Key>(k), make_of<Map>(v))); return INSERTING; }
            case 4: if constexpr (S::is_node && std::is_copy_constructible_v<Map>) if (!m[i].empty() && r.chance(40)) { // a node container keeps the argument alive while it grows
                    auto o = m[i].lower_bound(cn(rkey())); if (o == m[i].end()) o = m[i].begin(); int64_t ko = o->second.key, vo = o->second.val; on = "insertion of an own value"; log(on, i, k);
                    auto f = cc.find(make_of<Key>(ko)); VCHECK(f != cc.end(), "content", "key %lld [%s] is not found", (long long)ko, S::name); const Map& mv = f->second; bool n; unsigned w = unsigned(r.below(3)); cnt("own_values")++;
                    if (w == 0) { n = m_insert(i, k, vo); after_insert(on, i, k, n, cc.try_emplace(make_of<Key>(k), mv)); } else if (w == 1) { n = m_insert(i, k, vo); after_insert(on, i, k, n, cc.emplace(make_of<Key>(k), mv)); }
                    else { n = m_insert(i, k, vo); m[i].at(cn(k)).val = vo; after_insert(on, i, k, n, cc.insert_or_assign(make_of<Key>(k), mv)); }
                    return INSERTING; }
                    { on = "try_emplace"; log(on, i, k); bool n = m_insert(i, k, v); Map mv = make_of<Map>(v);
                    if (r.chance(50)) { Key key = make_of<Key>(k); after_insert(on, i, k, n, cc.try_emplace(std::move(key), std::move(mv))); if (!n) VCHECK(id_of(key) == k, "argument", "try_emplace moved from its key argument"); }
                    else { Key key = make_of<Key>(k); after_insert(on, i, k, n, cc.try_emplace(key, std::move(mv))); VCHECK(id_of(key) == k, "argument", "try_emplace changed its key argument"); }
                    if (!n) VCHECK(id_of(mv) == v, "argument", "try_emplace(%lld) [%s] moved from its argument although the key was present", (long long)k, S::name);
                    return INSERTING; }
            case 5: { on = "try_emplace(hint)"; log(on, i, k); bool n = m_insert(i, k, v); Key key = make_of<Key>(k); Map mv = make_of<Map>(v); after_insert_it(on, i, k, cc.try_emplace(cc.begin(), std::move(key), std::move(mv))); if (!n) VCHECK(id_of(key) == k && id_of(mv) == v, "argument", "try_emplace(hint) moved from its arguments although the key was present"); return INSERTING; }
            case 6: { on = "emplace(piecewise)"; log(on, i, k); bool n = m_insert(i, k, v);
                    after_insert(on, i, k, n, cc.emplace(std::piecewise_construct, std::forward_as_tuple(make_of<Key>(k)), std::forward_as_tuple(make_of<Map>(v)))); return INSERTING; }
            default: { on = "operator[] read"; log(on, i, k); bool present = m[i].count(cn(k)); 
                    if (!present) { if constexpr (std::is_same_v<Map, std::string>) { on = "operator[] default"; auto& rf = cc[make_of<Key>(k)]; VCHECK(rf.empty(), "content", "operator[] of an absent key is not value-initialized"); m_insert(i, k, v); rf = make_of<Map>(v); }
                                    else { auto& rf = cc[make_of<Key>(k)]; VCHECK(id_of(rf) == 0, "content", "operator[] of an absent key is not value-initialized"); m_insert(i, k, 0); } }
                    else { auto& rf = cc[make_of<Key>(k)]; VCHECK(id_of(rf) == m[i].at(cn(k)).val, "content", "operator[] [%s] wrong value", S::name); }
                    return INSERTING; }
            }
            return INSERTING;
        }
    }

    iter nth(int i, size_t n) { auto it = c[i]->begin(); while (n--) ++it; return it; }

    Eff op_erase(int i, const char*& on) {
        C& cc = *c[i];
        budget[i] = 0;
        int64_t k = rkey();
        switch (r.below(8)) {
        default: { on = "erase(key)"; log(on, i, k); size_t e = m[i].erase(cn(k)); size_t g;
                   if (e && r.chance(30)) { on = "erase(own key)"; auto f = cc.find(make_of<Key>(k)); VCHECK(f != cc.end(), "content", "key %lld [%s] is not found", (long long)k, S::name); const Key* kp; if constexpr (S::is_map) kp = &f->first; else kp = &*f; g = cc.erase(*kp); }
                   else g = cc.erase(make_of<Key>(k));
                   VCHECK(g == e, "result", "erase(%lld) [%s] returned %zu, expected %zu", (long long)k, S::name, g, e);
                   lookup(i, k, on); return NONMOVING; }
        case 5: { on = "erase(iterator)"; log(on, i, k); auto it = cc.find(make_of<Key>(k)); if (it == cc.end()) return NONMOVING;
                  if (r.chance(50)) { auto nx = std::next(it); auto rs = r.chance(50) ? cc.erase(it) : cc.erase(typename C::const_iterator(it)); VCHECK(rs == nx, "result", "erase(iterator) [%s] does not return the next position", S::name); }
                  else cc._erase(it);
                  m[i].erase(cn(k)); lookup(i, k, on); return NONMOVING; }
        case 6: { on = "erase(range)"; size_t n = m[i].size(); if (n > 400) return NONMOVING; size_t a = r.below(n + 1), b = a + r.below(std::min<size_t>(n - a, 20) + 1); log(on, i, int64_t(a * 1000 + b));
                  auto f = nth(i, a); auto l = nth(i, b);
                  std::vector<int64_t> ks; for (auto x = f; x != l; ++x) ks.push_back(cn(id_of(key_of(*x))));
                  cc.erase(typename C::const_iterator(f), typename C::const_iterator(l));
                  for (auto x : ks) m[i].erase(x);
                  VCHECK(cc.size() == m[i].size(), "size", "erase(range) [%s]: size %zu expected %zu", S::name, cc.size(), m[i].size());
                  for (auto x : ks) lookup(i, x, on);
                  return NONMOVING; }
        case 7: { // erase by a key which lives inside the container
                  on = "erase(*it)"; log(on, i, k); auto it = cc.find(make_of<Key>(k)); if (it == cc.end()) return NONMOVING;
                  size_t g = cc.erase(key_of(*it)); VCHECK(g == 1, "result", "erase(key inside) returned %zu", g); m[i].erase(cn(k)); lookup(i, k, on); return NONMOVING; }
        }
    }

    Eff op_node(int i, const char*& on) {
        C& cc = *c[i];
        int j = int(r.below(NC));
        int64_t k = rkey();
        on = "extract"; log(on, i * 10 + j, k);
        budget[i] = 0;
        auto f = m[i].find(cn(k));
        typename C::node_type nh;
        if (r.chance(50)) nh = cc.extract(make_of<Key>(k));
        else { auto it = cc.find(make_of<Key>(k)); if (it != cc.end()) nh = cc.extract(it); }
        VCHECK(nh.empty() == (f == m[i].end()), "result", "extract(%lld) [%s] empty: %d", (long long)k, S::name, nh.empty());
        VCHECK(bool(nh) == !nh.empty(), "result", "node_handle bool");
        if (nh.empty() && r.chance(30)) { auto it = c[j]->insert(c[j]->begin(), std::move(nh)); VCHECK(it == c[j]->end() && nh.empty(), "result", "insert(hint, empty node) [%s]", S::name); return ANY; }
        if (nh.empty()) { auto res = c[j]->insert(std::move(nh)); VCHECK(!res.inserted && res.position == c[j]->end() && res.node.empty(), "result", "insert(empty node) [%s]", S::name); return ANY; }
        MV mv = f->second; m[i].erase(f);
        auto check_nh = [&](auto& n) {
            if constexpr (S::is_map) { VCHECK(id_of(n.key()) == mv.key && id_of(n.mapped()) == mv.val, "content", "node handle [%s] holds the wrong element", S::name); }
            else VCHECK(id_of(n.value()) == mv.key, "content", "node handle [%s] holds the wrong element", S::name);
        };
        check_nh(nh);
        if (r.chance(20)) { auto n2 = std::move(nh); check_nh(n2); nh = std::move(n2); check_nh(nh); }
        lookup(i, k, on);
        if (r.chance(15)) return ANY; // drop the node
        if constexpr (S::is_map) if (r.chance(30)) { int64_t v = nextval++; nh.mapped() = make_of<Map>(v); mv.val = v; }
        bool ins = m_insert(j, mv.key, mv.val);
        if (!r.chance(25)) {
            auto res = c[j]->insert(std::move(nh));
            VCHECK(res.inserted == ins, "result", "insert(node %lld) [%s] inserted: %d expected %d", (long long)k, S::name, res.inserted, ins);
            VCHECK(res.position != c[j]->end(), "result", "insert(node) returned end()");
            expect_elem("insert(node)", *res.position, m[j].at(cn(k)));
            VCHECK(res.node.empty() == ins, "result", "insert(node): node returned wrongly");
            if (!ins) { check_nh(res.node); }
        } else {
            auto it = c[j]->insert(c[j]->begin(), std::move(nh));
            VCHECK(it != c[j]->end(), "result", "insert(hint,node) returned end()");
            expect_elem("insert(hint,node)", *it, m[j].at(cn(k)));
            if (!ins) { VCHECK(!nh.empty(), "result", "insert(hint,node) lost the node of a present key [%s]", S::name); check_nh(nh); }
        }
        lookup(j, k, "insert(node)");
        return ANY;
    }

    Eff op_merge(int i, const char*& on) {
        int j = (i + 1 + int(r.below(NC - 1))) % NC;
        on = "merge"; log(on, i, j);
        for (auto it = m[j].begin(); it != m[j].end();) {
            if (m[i].emplace(it->first, it->second).second) it = m[j].erase(it); else ++it;
        }
        maxsize[i] = std::max(maxsize[i], m[i].size());
        if (r.chance(70)) c[i]->merge(*c[j]); else c[i]->merge(std::move(*c[j]));
        budget[j] = 0;
        full_check(i, "merge"); full_check(j, "merge(source)");
        return ANY;
    }

    Eff op_value(int i, const char*& on) {
        int j = (i + 1 + int(r.below(NC - 1))) % NC;
        auto cp_bounds = [&](int to, int from) { m[to] = m[from]; maxsize[to] = std::max(m[from].size(), maxsize[from]); maxres[to] = std::max(maxres[from], c[from]->capacity()); budget[to] = 0; };
        auto check_moved = [&](int from, const char* w) { // a moved-from container is empty and usable
            m[from].clear(); maxsize[from] = 0; maxres[from] = c[from]->capacity(); budget[from] = 0;
            full_check(from, w);
        };
        switch (r.below(10)) {
        case 0: if constexpr (copyable) { on = "copy-construct"; log(on, i, j); auto n = std::make_unique<C>(*c[j]); cp_bounds(i, j); c[i] = std::move(n); note_res(i); full_check(i, on); full_check(j, on); } return ANY;
        case 1: if constexpr (copyable) { on = "copy-assign"; log(on, i, j); auto& rr = (*c[i] = *c[j]); VCHECK(&rr == c[i].get(), "result", "operator= result"); cp_bounds(i, j); full_check(i, on); full_check(j, on); } return ANY;
        case 2: { on = "move-construct"; log(on, i, j); auto old = addr[j]; auto n = std::make_unique<C>(std::move(*c[j])); cp_bounds(i, j); c[i] = std::move(n); full_check(i, on);
                  if (track_addr) { addr[i] = old; check_addr(i, "move construction"); }
                  check_moved(j, "moved-from"); return ANY; }
        case 3: { on = "move-assign"; log(on, i, j); *c[i] = std::move(*c[j]); cp_bounds(i, j); full_check(i, on); check_moved(j, "moved-from"); return ANY; }
        case 4: { on = "swap"; log(on, i, j); auto ai = addr[i], aj = addr[j];
                  if (r.chance(50)) c[i]->swap(*c[j]); else { using std::swap; swap(*c[i], *c[j]); }
                  std::swap(m[i], m[j]); std::swap(maxsize[i], maxsize[j]); std::swap(maxres[i], maxres[j]); std::swap(budget[i], budget[j]);
                  if (track_addr) { addr[i] = aj; addr[j] = ai; check_addr(i, "swap"); check_addr(j, "swap"); }
                  full_check(i, on); full_check(j, on); return ANY; }
        case 5: if constexpr (copyable) { on = "self-assign"; log(on, i); C& a = *c[i]; *c[i] = a; note_res(i); full_check(i, on); } return ANY;
        case 6: if (r.chance(40)) { on = "self-move"; log(on, i); C& a = *c[i]; *c[i] = std::move(a); if (c[i]->empty()) m[i].clear(); note_res(i); full_check(i, on); return ANY; } else { on = "self-swap"; log(on, i); c[i]->swap(*c[i]); full_check(i, on); return NONMOVING; }
        case 7: case 8: if constexpr (copyable) { on = "equality"; log(on, i, j); if (S::stateful && hs.mod) return NONMOVING;
                  auto same = [&](const Model& a, const Model& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return x.first == y.first && x.second.val == y.second.val; }); };
                  if (r.chance(50)) { // compare with a rebuilt container: other capacity and insertion order
                      C o = S::make(r.below(200), hs);
                      std::vector<MV> e; for (auto& x : m[i]) e.push_back(x.second);
                      for (size_t q = e.size(); q > 1; --q) std::swap(e[q - 1], e[r.below(q)]);
                      bool expect = true;
                      size_t drop = e.size() && r.chance(40) ? r.below(e.size()) : size_t(-1);
                      for (size_t q = 0; q < e.size(); ++q) { if (q == drop) { expect = false; if (r.chance(50)) continue; if constexpr (S::is_map) { e[q].val = nextval++; } else { e[q].key = int64_t(U) + 5; } } o.insert(make_vt(e[q].key, e[q].val)); }
                      VCHECK((*c[i] == o) == expect && (o == *c[i]) == expect && (*c[i] != o) == !expect, "equality", "== [%s] with a rebuilt container of %zu elements is %d, expected %d", S::name, e.size(), *c[i] == o, expect);
                      cnt("equality_checks")++;
                  } else {
                      bool expect = same(m[i], m[j]);
                      VCHECK((*c[i] == *c[j]) == expect && (*c[i] != *c[j]) == !expect && (*c[j] == *c[i]) == expect, "equality", "== [%s] is %d, expected %d", S::name, *c[i] == *c[j], expect);
                      VCHECK(*c[i] == *c[i], "equality", "container differs from itself");
                  } } return NONMOVING;
        default: if constexpr (copyable) { on = "assign(ilist)/range-construct"; log(on, i); int64_t k1 = rkey(), k2 = rkey(), v1 = nextval++, v2 = nextval++;
                  m[i].clear(); budget[i] = 0;
                  if constexpr (!S::stateful) {
                      if (r.chance(50)) { if constexpr (!S::is_par) c[i] = std::make_unique<C>(std::initializer_list<VT>{ make_vt(k1, v1), make_vt(k2, v2) }); else { c[i]->clear(); c[i]->insert({ make_vt(k1, v1), make_vt(k2, v2) }); } }
                      else { std::list<VT> l; l.push_back(make_vt(k1, v1)); l.push_back(make_vt(k2, v2)); c[i] = std::make_unique<C>(l.begin(), l.end()); }
                  } else {
                      std::list<VT> l; l.push_back(make_vt(k1, v1)); l.push_back(make_vt(k2, v2));
                      c[i] = std::make_unique<C>(l.begin(), l.end(), r.below(20), typename C::hasher{ hs }, typename C::key_equal{ hs }, S::mk_alloc(0));
                  }
                  m_insert(i, k1, v1); m_insert(i, k2, v2); note_res(i); full_check(i, on); } return ANY;
        }
    }

    void finish() {
        for (int i = 0; i < NC; ++i) full_check(i, "end");
        for (int i = 0; i < NC; ++i) c[i].reset();
    }
};

template<class S>
void world_case(Rng& r, Profile p, size_t maxops, size_t maxU, bool track, size_t fcscale = 1) {
    HState hs;
    if (S::stateful) {
        hs.mode = int(r.below(kHashModes));
        if (r.chance(20)) hs.mod = int64_t(r.range(3, 200));
    }
    size_t U = r.chance(fcscale > 1 ? 0 : 30) ? r.range(2, 24) : r.range(10, maxU);
    if (hs.mode == 2 || hs.mode == 3) U = std::min<size_t>(U, 400); // quadratic
    {
        World<S> w(r, U, hs);
        w.track_addr = track;
        size_t n = r.range(20, maxops);
        size_t fc = r.range(5, 60) * fcscale;
        Profile q = p;
        for (size_t i = 0; i < n; ++i) {
            if (p == PR_MIX && i % 100 == 0) q = Profile(r.below(PR_VALUE));
            w.step(q);
            if (i % fc == fc - 1) for (int j = 0; j < World<S>::NC; ++j) w.full_check(j, "steps", j == 0);
        }
        w.finish();
    }
    check_no_leaks(S::name);
}
} // namespace vf
