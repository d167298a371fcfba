From 4226d4a86d1e3d91d3dae327af99797a8ab01c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 01/54] fix: bit_view::find_first/find_next miss or misplace
 bits in the last slot of an unaligned view

---
 include/gtl/bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..6e1d1d6 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -681,6 +681,7 @@ public:
     size_t find_first() const {
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
+            shift = (std::max)(shift, 0); // a negative shift marks the last slot, whose bits are not shifted
             if (v) {
                 idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
                 return true;                   // stop iterating
-- 
2.43.0


From 3dc637f1f2ab899d58ac1641523ae9e97c30b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 02/54] fix: bit_view assignment within one bit_vector corrupts
 overlapping ranges and overwrites disjoint sources

---
 include/gtl/bit_vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 6e1d1d6..d59e6c5 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -549,13 +549,15 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first < o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
         } else if (_first > o._first) {
-            // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+            // both views are on same bitmap, and the end of the source overlaps our start, so
+            // copying forward would overwrite source bits before they are read.
+            vec_type tmp(o.size());
+            tmp.view() = o;
+            *this      = tmp.view();
         }
         return *this;
     }
-- 
2.43.0


From 56ff263dfa36efb68c778d0e7140b85a8d1b3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 03/54] fix: bit_view::contains reads past the end of a smaller
 argument

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index d59e6c5..56f4239 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -630,7 +630,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From 9f952b1ca9b42530843ddddbe8689b9f27bd808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 04/54] fix: bit_vector::resize(n, true) leaves the new bits of
 the last existing block cleared

---
 include/gtl/bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 56f4239..fa8631e 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,8 +80,11 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
+        size_t old_sz    = _s.empty() ? 0 : _sz;
         _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
+        if (val && num_bits > old_sz && mod(old_sz))
+            _s.back() |= himask(old_sz); // the new bits start in the last existing slot
         _s.resize(num_slots, val ? ones : 0);
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
-- 
2.43.0


From 698c1af4d496c84cfa27a27cbacf97fcfa26886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 05/54] fix: bit_vector set() and reset() index an empty block
 array on an empty bit_vector

---
 include/gtl/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index fa8631e..834fc87 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -318,6 +318,8 @@ public:
     template<vt flags, class F>
     void visit_all([[maybe_unused]] F f) {
         size_t num_slots = slot_cnt(_sz);
+        if (!num_slots)
+            return;
         if constexpr (flags & vt::false_) {
             // set all bits to 0
             // std::fill(&_s[0], &_s[0] + num_slots, 0);
-- 
2.43.0


From 07c8012b95161798b9c711ae6ca40c29ba7ab89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 06/54] fix: bit_view = uint64_t shifts by a negative amount
 when the view spans two blocks

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 834fc87..a6ed725 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -536,7 +536,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From bf3538c07cca72023918316242fb526b9521118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:56 +0000
Subject: [PATCH 07/54] fix: bit_vector.hpp defines a non-inline function, so
 two translation units including it do not link

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index a6ed725..9955d0c 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -49,7 +49,7 @@ static constexpr size_t _popcount64(uint64_t y) {
 }
 
 // De Bruijn Multiplication With separated LS1B - author Kim Walisch (2012)
-unsigned countr_zero(uint64_t bb) {
+inline unsigned countr_zero(uint64_t bb) {
     const unsigned index64[64] = { 0,  47, 1,  56, 48, 27, 2,  60, 57, 49, 41, 37, 28, 16, 3,  61,
                                    54, 58, 35, 52, 50, 42, 21, 44, 38, 32, 29, 23, 17, 11, 4,  62,
                                    46, 55, 26, 59, 40, 36, 15, 53, 34, 51, 20, 43, 31, 22, 10, 45,
-- 
2.43.0


From 286813195acd7b099143e8f8ed9e54f561d3f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 08/54] fix: rehash(n) can shrink a hash table below the
 capacity its elements need

rehash(0) (and rehash(n) with a small n) only made room for size() slots,
ignoring the maximum load factor: a table of 15 elements became completely
full, growth_left underflowed, and a lookup of an absent key never ended.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..9fb9e2a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2345,7 +2345,7 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From 845272bfa0359c66d88794b24b061b62ed7ee45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 09/54] fix: a throwing element constructor leaves a hash table
 with a wrong size

prepare_insert() counts the new element before it is constructed, so when the
construction threw size() stayed one too high for ever (and growth_left one too
low). The copy constructor marked a slot full before constructing its element,
so when that threw the destructor destroyed an object which never existed.
---
 include/gtl/phmap.hpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9fb9e2a..cdfca6d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1822,8 +1822,8 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
+            PolicyTraits::construct(&alloc_ref(), slots_ + target.offset, v);
             set_ctrl(target.offset, H2(hashval));
-            emplace_at(target.offset, v);
         }
         size_ = that.size();
         growth_left() -= that.size();
@@ -2196,14 +2196,19 @@ public:
 
     template<class K = key_type, class F, class C>
     decltype(auto) lazy_emplace_at(size_t& idx, F&& f, C& c) {
-        slot_type* slot = slots_ + idx;
-        return std::forward<F>(f)(constructor(&alloc_ref(), &slot), c);
+        slot_type*     slot = slots_ + idx;
+        InsertRollback rollback{ this, idx, &slot };
+        decltype(auto) res = std::forward<F>(f)(constructor(&alloc_ref(), &slot), c);
+        rollback.dismiss();
+        return res;
     }
 
     template<class K = key_type, class F>
     void lazy_emplace_at(size_t& idx, F&& f) {
-        slot_type* slot = slots_ + idx;
+        slot_type*     slot = slots_ + idx;
+        InsertRollback rollback{ this, idx, &slot };
         std::forward<F>(f)(constructor(&alloc_ref(), &slot));
+        rollback.dismiss();
         assert(!slot);
     }
 
@@ -2880,6 +2885,26 @@ protected:
         return target.offset;
     }
 
+    // Undoes the accounting of prepare_insert(), which returned slot index `i`, if
+    // constructing the element throws. When `slot` is provided, `*slot == nullptr`
+    // means that the element was constructed, and has to be destroyed.
+    // --------------------------------------------------------------------------
+    struct InsertRollback {
+        ~InsertRollback() {
+            if (!s)
+                return;
+            if (slot && !*slot)
+                PolicyTraits::destroy(&s->alloc_ref(), s->slots_ + i);
+            --s->size_;
+            s->growth_left() += IsEmpty(s->ctrl_[i]);
+        }
+        void dismiss() { s = nullptr; }
+
+        raw_hash_set* s;
+        size_t        i;
+        slot_type**   slot;
+    };
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -2891,7 +2916,9 @@ protected:
     // --------------------------------------------------------------------------
     template<class... Args>
     void emplace_at(size_t i, Args&&... args) {
+        InsertRollback rollback{ this, i, nullptr };
         PolicyTraits::construct(&alloc_ref(), slots_ + i, std::forward<Args>(args)...);
+        rollback.dismiss();
 
 #ifdef GTL_CHECK_CONSTRUCTED_VALUE
         // this check can be costly, so do it only when requested
-- 
2.43.0


From 2e7f526096487b37a3c1540087c27c073d136780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 10/54] fix: node hash containers leak the node when
 constructing the element throws

---
 include/gtl/phmap.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index cdfca6d..48e2943 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4879,9 +4879,10 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
     static T* new_element(Allocator* alloc, Args&&... args) {
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
-        T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
-        std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
-        return res;
+        const auto dealloc = [&](T* p) { std::allocator_traits<ValueAlloc>::deallocate(value_alloc, p, 1); };
+        std::unique_ptr<T, decltype(dealloc)> res(std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1), dealloc);
+        std::allocator_traits<ValueAlloc>::construct(value_alloc, res.get(), std::forward<Args>(args)...);
+        return res.release();
     }
 
     template<class Allocator>
@@ -4918,9 +4919,11 @@ public:
     static value_type* new_element(Allocator* alloc, Args&&... args) {
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
         PairAlloc   pair_alloc(*alloc);
-        value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
-        std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
-        return res;
+        const auto  dealloc = [&](value_type* p) { std::allocator_traits<PairAlloc>::deallocate(pair_alloc, p, 1); };
+        std::unique_ptr<value_type, decltype(dealloc)> res(std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1),
+                                                           dealloc);
+        std::allocator_traits<PairAlloc>::construct(pair_alloc, res.get(), std::forward<Args>(args)...);
+        return res.release();
     }
 
     template<class Allocator>
-- 
2.43.0


From d5f802a5a5c9094e91d2b11e5c32924d0386a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 11/54] fix: emplace() leaks the new element when the hash,
 equality or allocation throws

When the key cannot be deduced from the arguments, emplace() first constructs
the element outside of the table; nothing destroyed it if an exception was
thrown before it was moved into the table.
---
 include/gtl/phmap.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 48e2943..bec7924 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2087,8 +2087,12 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlot<true>{ *this, std::move(*slot) }, elem);
+        SlotDestroyer destroyer{ &alloc_ref(), slot };
+        const auto&   elem = PolicyTraits::element(slot);
+        auto          res  = PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*slot) }, elem);
+        if (res.second)
+            destroyer.dismiss();
+        return res;
     }
 
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
@@ -2097,8 +2101,12 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlotWithHash<true>{ *this, std::move(*slot), hashval }, elem);
+        SlotDestroyer destroyer{ &alloc_ref(), slot };
+        const auto&   elem = PolicyTraits::element(slot);
+        auto          res  = PolicyTraits::apply(InsertSlotWithHash<false>{ *this, std::move(*slot), hashval }, elem);
+        if (res.second)
+            destroyer.dismiss();
+        return res;
     }
 
     template<class... Args>
@@ -2573,6 +2581,18 @@ private:
         size_t        hashval;
     };
 
+    // Destroys a slot which was not moved into a table.
+    struct SlotDestroyer {
+        ~SlotDestroyer() {
+            if (slot)
+                PolicyTraits::destroy(alloc, slot);
+        }
+        void dismiss() { slot = nullptr; }
+
+        allocator_type* alloc;
+        slot_type*      slot;
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
-- 
2.43.0


From afab0367f2b06e407d1dbf3ddb12cdb0a8986df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 12/54] fix: emplace() and insert(hint, node) of the parallel
 hash containers do not compile

emplace() and emplace_with_hash() with arguments from which the key cannot be
deduced (for example emplace(std::piecewise_construct, ...) with several key
arguments) never compiled, and would have hashed the key before constructing
it. insert(const_iterator, node_type&&) used a member which does not exist.
---
 include/gtl/phmap.hpp | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index bec7924..4874efc 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3722,7 +3722,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
@@ -3770,12 +3774,17 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto&                                             elem  = PolicyTraits::element(slot);
-        Inner&                                                  inner = sets_[subidx(hashval)];
-        auto&                                                   set   = inner.set_;
-        UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::SlotDestroyer destroyer{ &alloc_ref(), slot };
+
+        const auto& elem  = PolicyTraits::element(slot);
+        Inner&      inner = sets_[subidx(hashval)];
+        auto&       set   = inner.set_;
+        UniqueLock  m(inner);
+        auto        res = PolicyTraits::apply(
+            typename EmbeddedSet::template InsertSlotWithHash<false>{ set, std::move(*slot), hashval }, elem);
+        if (res.second)
+            destroyer.dismiss();
+        return make_rv(&inner, res);
     }
 
     template<class... Args>
@@ -3838,17 +3847,21 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
-        UniqueLock  m(inner);
+        typename EmbeddedSet::SlotDestroyer destroyer{ &alloc_ref(), slot };
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
+        UniqueLock  m(inner);
+        auto        res = PolicyTraits::apply(
+            typename EmbeddedSet::template InsertSlotWithHash<false>{ set, std::move(*slot), hashval }, elem);
+        if (res.second)
+            destroyer.dismiss();
+        return make_rv(&inner, res);
     }
 
     template<class... Args>
-- 
2.43.0


From 0569a655b63fd8b33bd3921e49a6812c08cc80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 13/54] fix: parallel erase_if reports an erase which another
 thread did

With a mutex supporting shared locks, erase_if releases its read lock before
taking the write lock. When the key was erased in between it returned true
(erased) without calling the lambda, so two threads could both be told that
they erased the same element.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 4874efc..8e6f61e 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3984,7 +3984,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From a150b995a08891d4f27d6492148db9b2c8993138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 14/54] fix: clear() of a parallel hash map with an auxiliary
 container does not compile

So lru_cache::clear() and memoize_lru::clear() could not be used.
---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8e6f61e..5da0bf0 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3625,7 +3625,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3636,7 +3636,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From 024966d9eb0561b45ab7c941633fcc81c5eac610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 15/54] fix: moving or swapping a parallel hash map leaves its
 auxiliary container behind

A moved lru_cache (or memoize_lru) kept iterators into the list of the cache it
was moved from: its eviction order was lost, and using it after the original
cache was destroyed accessed freed memory.
---
 include/gtl/phmap.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 5da0bf0..dad8bbf 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3572,6 +3572,7 @@ public:
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
         for (size_t i = 0; i < num_tables; ++i)
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+        move_aux(that);
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3585,11 +3586,24 @@ public:
         std::is_nothrow_move_assignable_v<key_equal>) {
         for (size_t i = 0; i < num_tables; ++i)
             sets_[i].set_ = std::move(that.sets_[i].set_);
+        move_aux(that);
         return *this;
     }
 
     ~parallel_hash_set() {}
 
+private:
+    // the auxiliary containers go along with the sets when these are moved
+    void move_aux(parallel_hash_set& that) {
+        if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>) {
+            for (size_t i = 0; i < num_tables && this != &that; ++i) {
+                sets_[i].aux_ = std::move(that.sets_[i].aux_);
+                that.sets_[i].aux_.clear();
+            }
+        }
+    }
+
+public:
     iterator begin() {
         auto it = iterator(&sets_[0], &sets_[0] + num_tables, sets_[0].set_.begin());
         it.skip_empty();
@@ -4194,6 +4208,7 @@ public:
             UniqueLock                     l(sets_[i]);
             typename Lockable2::UniqueLock l2(that.get_inner(i));
             swap(sets_[i].set_, that.get_inner(i).set_);
+            swap(sets_[i].aux_, that.get_inner(i).aux_);
         }
     }
 
-- 
2.43.0


From b66d04e6680c624ad13f528871b7228bb4c8a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 16/54] fix: parallel swap and operator== can deadlock

a.swap(b) locked the submaps of a before those of b, so it deadlocked with a
concurrent b.swap(a). a.swap(a) and a == a locked the same mutex twice.
---
 include/gtl/phmap.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index dad8bbf..7401b97 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3293,6 +3293,10 @@ protected:
             : set_(p.bucket_cnt, p.hashfn, p.eq, p.alloc) {}
 
         bool operator==(const Inner& o) const {
+            if (this == &o) {
+                SharedLock l(const_cast<Inner&>(o));
+                return set_ == o.set_;
+            }
             typename Lockable::SharedLocks l(const_cast<Inner&>(*this), const_cast<Inner&>(o));
             return set_ == o.set_;
         }
@@ -4204,11 +4208,21 @@ public:
         using std::swap;
         using Lockable2 = LockableImpl<Mtx2_>;
 
-        for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
-            swap(sets_[i].set_, that.get_inner(i).set_);
-            swap(sets_[i].aux_, that.get_inner(i).aux_);
+        if constexpr (std::is_same_v<Mtx_, Mtx2_>) {
+            if (this == &that)
+                return;
+            for (size_t i = 0; i < num_tables; ++i) {
+                typename Lockable::UniqueLocks l(sets_[i], that.get_inner(i));
+                swap(sets_[i].set_, that.get_inner(i).set_);
+                swap(sets_[i].aux_, that.get_inner(i).aux_);
+            }
+        } else {
+            for (size_t i = 0; i < num_tables; ++i) {
+                UniqueLock                     l(sets_[i]);
+                typename Lockable2::UniqueLock l2(that.get_inner(i));
+                swap(sets_[i].set_, that.get_inner(i).set_);
+                swap(sets_[i].aux_, that.get_inner(i).aux_);
+            }
         }
     }
 
-- 
2.43.0


From ecfd6d1011e83e35933060f882c82eb20f3389d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 17/54] fix: reserve(n) does not reserve room for n elements
 after erasures

Erased slots count against the growth limit of the table, but reserve() only
looked at the capacity, so inserting up to n elements could still rehash and
invalidate iterators and references.
---
 include/gtl/phmap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7401b97..c5f845d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2365,7 +2365,15 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        size_t m = GrowthToLowerboundCapacity(n);
+        if (m && n > size_ + growth_left() && NormalizeCapacity(m) <= capacity_) {
+            // the capacity is sufficient, but erased slots use part of it: get rid of them
+            resize(capacity_);
+        } else {
+            rehash(m);
+        }
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From 4da27983a1e08b94cc58ad07db3cc7c0445b39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 18/54] fix: assigning a hash container mixes up allocators
 unless they also propagate on swap

With an allocator which propagates on copy (move) assignment but not on swap,
the assignment took over the memory of the source's allocator but kept its own
allocator, to which that memory was later returned.
---
 include/gtl/phmap.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index c5f845d..7854ff2 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1872,6 +1872,7 @@ public:
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
         swap(tmp);
+        swap_alloc(tmp, typename AllocTraits::propagate_on_container_copy_assignment());
         return *this;
     }
 
@@ -2855,9 +2856,20 @@ private:
     }
 
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
+    // swap(tmp) exchanges the allocators only when propagate_on_container_swap, but
+    // an assignment which propagates the allocator always has to.
+    void swap_alloc(raw_hash_set& tmp, std::true_type) {
+        if constexpr (!AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(alloc_ref(), tmp.alloc_ref());
+        }
+    }
+    void swap_alloc(raw_hash_set&, std::false_type) {}
+
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
         swap(tmp);
+        swap_alloc(tmp, std::true_type());
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
-- 
2.43.0


From c9406d7e574f612befcca944a33049676d467963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 19/54] fix: assigning an intrusive_ptr<Derived> to an
 intrusive_ptr<Base> does not compile

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From da311bde869141ed8a0b589a91efabec50163ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 20/54] fix: vector::emplace(pos, args) with args referring
 into the vector reads a moved element

When no reallocation is needed the elements after pos are moved before the new
one is constructed, so v.emplace(v.begin(), v.back()) inserted a moved-from or
wrong value.
---
 include/gtl/vector.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..fe4e56f 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1462,13 +1462,14 @@ private: // we have the private section first because it defines some macros
 public:
     template<class... Args>
     iterator emplace(const_iterator cpos, Args&&... args) {
-        return do_real_insert(
-            cpos,
-            1,
-            [&] { return false; },
-            [&] { return iterator{}; },
-            [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
-            [&](iterator start) { M_destroy(start); });
+        if (cpos == cend()) {
+            emplace_back(std::forward<Args>(args)...);
+            return end() - 1;
+        }
+        // the arguments may refer to elements of this vector, so construct
+        // the new element before the existing ones are moved.
+        T value(std::forward<Args>(args)...);
+        return insert(cpos, std::move(value));
     }
 
     iterator insert(const_iterator cpos, const T& value) {
-- 
2.43.0


From 2bda804c90cbc97f98a939ee1936e72cfa7a57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 21/54] fix: move-constructing a parallel hash container loses
 its allocator

---
 include/gtl/phmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7854ff2..a58c63d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3593,7 +3593,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i)
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
         move_aux(that);
-- 
2.43.0


From e1039ceb2e1d35352dbd8c2259cadf3c5041832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:20 +0000
Subject: [PATCH 22/54] fix: inserting an empty range discards the reservation
 of an empty hash table

---
 include/gtl/phmap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index a58c63d..fe2bf45 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2007,6 +2007,8 @@ public:
 
     template<class InputIt, typename std::enable_if_t<has_difference_operator<InputIt>::value, int> = 0>
     void insert(InputIt first, InputIt last) {
+        if (first == last)
+            return; // reserve(0) would discard the reserved slots of an empty table
         this->reserve(this->size() + (last - first));
         for (; first != last; ++first)
             emplace(*first);
-- 
2.43.0


From ebbdd0d69df0cf912fc27547cd15549cde3f5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:06 +0000
Subject: [PATCH 23/54] fix: swap(a, b) of parallel hash containers does not
 lock

---
 include/gtl/phmap.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index fe2bf45..e97ad17 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -5517,6 +5517,9 @@ public:
     using Base::subcnt;
     using Base::subidx;
     using Base::swap;
+
+    // (otherwise `std::swap`, which does not lock, would be a better match than the `swap` of the base class)
+    friend void swap(parallel_flat_hash_set& a, parallel_flat_hash_set& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5579,6 +5582,9 @@ public:
     using Base::key_eq;
     using Base::load_factor;
     using Base::max_load_factor;
+
+    // (otherwise `std::swap`, which does not lock, would be a better match than the `swap` of the base class)
+    friend void swap(parallel_flat_hash_map& a, parallel_flat_hash_map& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5638,6 +5644,9 @@ public:
     using Base::swap;
     typename Base::hasher hash_funct() { return this->hash_function(); }
     void                  resize(typename Base::size_type hint) { this->rehash(hint); }
+
+    // (otherwise `std::swap`, which does not lock, would be a better match than the `swap` of the base class)
+    friend void swap(parallel_node_hash_set& a, parallel_node_hash_set& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5702,6 +5711,9 @@ public:
     using Base::max_load_factor;
     typename Base::hasher hash_funct() { return this->hash_function(); }
     void                  resize(typename Base::size_type hint) { this->rehash(hint); }
+
+    // (otherwise `std::swap`, which does not lock, would be a better match than the `swap` of the base class)
+    friend void swap(parallel_node_hash_map& a, parallel_node_hash_map& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 } // namespace gtl
-- 
2.43.0


From 208329af516885e8d8c6e5d1c1800195833e776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:59 +0000
Subject: [PATCH 24/54] fix: comparing parallel hash containers can deadlock
 with a shared mutex preferring writers

---
 include/gtl/phmap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index e97ad17..ad85ba9 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -496,8 +496,11 @@ public:
         explicit ReadLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            _m1.lock_shared();
-            _m2.lock_shared();
+            // always in the same order, or two threads could each hold one mutex and wait, behind a
+            // waiting writer, for the other one
+            const bool in_order = std::less<mutex_type*>()(&_m1, &_m2);
+            (in_order ? _m1 : _m2).lock_shared();
+            (in_order ? _m2 : _m1).lock_shared();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
-- 
2.43.0


From 3c3b8dc72a67e332e75ea8b0939dfcfa6a57d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:59 +0000
Subject: [PATCH 25/54] fix: swap and merge of parallel hash containers with an
 absl::Mutex do not compile

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index ad85ba9..cd015ea 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -575,10 +575,10 @@ public:
 struct AbslMutex : protected absl::Mutex {
     void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { this->Lock(); }
     void unlock() ABSL_UNLOCK_FUNCTION() { this->Unlock(); }
-    void try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { this->TryLock(); }
+    bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return this->TryLock(); }
     void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { this->ReaderLock(); }
     void unlock_shared() ABSL_UNLOCK_FUNCTION() { this->ReaderUnlock(); }
-    void try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { this->ReaderTryLock(); }
+    bool try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return this->ReaderTryLock(); }
 };
 
 template<>
-- 
2.43.0


From 00d1a2ebae630902a41aec5907e712d65ade54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 26/54] fix: loading a dump into a hash container drops its
 hash and equality functions and its allocator

---
 include/gtl/phmap_dump.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..8917e25 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -74,7 +74,8 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
+    // clear any existing content, keeping the hash and equality functions and the allocator
+    raw_hash_set<Policy, Hash, Eq, Alloc>(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this);
     size_t version = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
-- 
2.43.0


From 082986a1be6b4101d9b9b0f9b9f3ccd121b5687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 27/54] fix: vector of an over-aligned type allocates
 misaligned memory

---
 include/gtl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index fe4e56f..56b5b4b 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -147,7 +147,7 @@ private:
         // allocation
         // note that 'allocate' and 'deallocate' are inherited from Allocator
         T* D_allocate(size_type n) {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingMalloc) {
                 return static_cast<T*>(checkedMalloc(n * sizeof(T)));
             } else {
                 return std::allocator_traits<Allocator>::allocate(*this, n);
@@ -155,7 +155,7 @@ private:
         }
 
         void D_deallocate(T* p, size_type n) noexcept {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingMalloc) {
                 free(p);
             } else {
                 std::allocator_traits<Allocator>::deallocate(*this, p, n);
@@ -248,6 +248,8 @@ private:
     typedef typename std::conditional<should_pass_by_value, T, T&&>::type      MT;
 
     static constexpr bool usingStdAllocator = std::is_same_v<Allocator, std::allocator<T>>;
+    // malloc does not align enough for over-aligned types
+    static constexpr bool usingMalloc = usingStdAllocator && alignof(T) <= alignof(std::max_align_t);
     typedef std::bool_constant<usingStdAllocator || A::propagate_on_container_move_assignment::value> moveIsSwap;
 
     //===========================================================================
-- 
2.43.0


From a30bdd9cdf0538a53284544781ae3c992ee6f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 28/54] fix: vector value-initializes pointers to members to a
 non-null value

---
 include/gtl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 56b5b4b..8df9e34 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -428,7 +428,7 @@ private:
 
     // optimized
     static void S_uninitialized_fill_n(T* dest, size_type n) {
-        if constexpr (!std::is_class_v<T>) {
+        if constexpr (std::is_scalar_v<T> && !std::is_member_pointer_v<T>) {
             if (LIKELY(n != 0)) {
                 std::memset((void*)dest, 0, sizeof(T) * n);
             }
-- 
2.43.0


From ac47a18d4bbb533035cf18aef46dfdc038bcf7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 29/54] fix: vector move assignment between unequal allocators
 terminates when allocation fails

---
 include/gtl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 8df9e34..2dc900c 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -753,7 +753,7 @@ public:
         return *this;
     }
 
-    vector& operator=(vector&& other) noexcept {
+    vector& operator=(vector&& other) noexcept(moveIsSwap::value || A::is_always_equal::value) {
         if (UNLIKELY(this == &other)) {
             return *this;
         }
-- 
2.43.0


From 5453dc22bc0355f2211456c9a6d469a226448988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:39 +0000
Subject: [PATCH 30/54] fix: a moved-from bit_vector reports its old size
 without the storage for it

---
 include/gtl/bit_vector.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 9955d0c..c46ba83 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -782,6 +782,20 @@ public:
         *this = vals;
     }
 
+    vec(const vec&)            = default;
+    vec& operator=(const vec&) = default;
+
+    // the moved-from bit_vector is left empty
+    vec(vec&& o) noexcept
+        : vec() {
+        swap(o);
+    }
+    vec& operator=(vec&& o) noexcept {
+        vec tmp(std::move(o));
+        swap(tmp);
+        return *this;
+    }
+
     void resize(size_t sz, bool val = false) {
         _sz = sz;
         _s.resize(_sz, val);
-- 
2.43.0


From 7de076f61b3b700968f8093095ea3ad43416f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:59 +0000
Subject: [PATCH 31/54] fix: bit_view |=, &=, ^=, -= and or_not with an
 overlapping view read bits they have overwritten

---
 include/gtl/bit_vector.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index c46ba83..9dce308 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -446,26 +446,36 @@ public:
     }
 
     _view& operator|=(const _view& o) noexcept {
+        if (overwrites(o))
+            return *this |= o.copy().view();
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
         return bin_assign(o, [&](uint64_t a, size_t) { return a | seq(); });
     }
 
     _view& operator&=(const _view& o) noexcept {
+        if (overwrites(o))
+            return *this &= o.copy().view();
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
         return bin_assign(o, [&](uint64_t a, size_t) { return a & seq(); });
     }
 
     _view& operator^=(const _view& o) noexcept {
+        if (overwrites(o))
+            return *this ^= o.copy().view();
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
         return bin_assign(o, [&](uint64_t a, size_t) { return a ^ seq(); });
     }
 
     _view& operator-=(const _view& o) noexcept {
+        if (overwrites(o))
+            return *this -= o.copy().view();
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
         return bin_assign(o, [&](uint64_t a, size_t) { return a & ~seq(); });
     }
 
     _view& or_not(const _view& o) noexcept {
+        if (overwrites(o))
+            return or_not(o.copy().view());
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
         return bin_assign(o, [&](uint64_t a, size_t) { return a | ~seq(); });
     }
@@ -758,6 +768,16 @@ public:
     }
 
 private:
+    // true if both views are on same bitmap, and the end of view o overlaps our start, so
+    // that writing our bits in order would overwrite bits of o before they are read.
+    bool overwrites(const _view& o) const { return &_bv == &o._bv && _first > o._first && _first < o._last; }
+
+    vec_type copy() const {
+        vec_type res(size());
+        res.view() = *this;
+        return res;
+    }
+
     vec_type& _bv;
     size_t    _first;
     size_t    _last;
-- 
2.43.0


From 3766c0a7e47a921707a70f713b0588ba6667192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:01 +0000
Subject: [PATCH 32/54] fix: soa::insert and soa::resize leave columns of
 different lengths when an element throws

---
 include/gtl/soa.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/gtl/soa.hpp b/include/gtl/soa.hpp
index 0e9fe57..b3f901f 100644
--- a/include/gtl/soa.hpp
+++ b/include/gtl/soa.hpp
@@ -39,6 +39,7 @@
 #include <tuple>
 #include <vector>
 #include <gtl/bit_vector.hpp>
+#include <gtl/utils.hpp>
 
 namespace gtl {
 
@@ -95,7 +96,9 @@ public:
     }
 
     void resize(size_t sz) {
+        scoped_guard rollback([this, old_sz = size()]() { truncate(old_sz); });
         std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);
+        rollback.dismiss();
     }
 
     void reserve(size_t sz) {
@@ -155,7 +158,18 @@ private:
 
     template<typename T, size_t... I>
     void insert_impl(std::integer_sequence<size_t, I...>, T t) {
+        scoped_guard rollback([this, old_sz = size()]() { truncate(old_sz); });
         ((get_column<I>().push_back(std::get<I>(t))), ...);
+        rollback.dismiss();
+    }
+
+    // removes what an operation which failed has added to some of the columns
+    void truncate(size_t sz) {
+        auto shrink = [sz](auto& col) {
+            while (col.size() > sz)
+                col.pop_back();
+        };
+        std::apply([&](auto&... x) { (shrink(x), ...); }, data_);
     }
 
     template<size_t... I>
-- 
2.43.0


From 92ef5ce8a2e6303fa5cf75e8a80ae441f62fcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:01 +0000
Subject: [PATCH 33/54] fix: middle<integral> overflows on ranges wider than
 the type

---
 include/gtl/adv_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..cade18e 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -77,7 +77,7 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
+        if (l < r && T(l + 1) != r)
             return std::midpoint(l, r);
         return {};
     }
-- 
2.43.0


From b7cdb83d6ab7fa742b49fd7cc74af979f9105ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:01 +0000
Subject: [PATCH 34/54] fix: middle<double> does not bisect ranges with
 negative values

---
 include/gtl/adv_utils.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index cade18e..9b31302 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,8 +11,11 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <utility>
@@ -88,15 +91,22 @@ struct middle<T> {
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        auto m = middle<int64_t>()(to_ordered(l), to_ordered(r));
+        if (m)
+            return from_ordered(*m);
         return {};
     }
+
+private:
+    // maps doubles to integers, so that adjacent doubles map to adjacent integers
+    static int64_t to_ordered(double d) {
+        int64_t i = std::bit_cast<int64_t>(d);
+        return i >= 0 ? i : std::numeric_limits<int64_t>::min() - i;
+    }
+
+    static double from_ordered(int64_t i) {
+        return std::bit_cast<double>(i >= 0 ? i : std::numeric_limits<int64_t>::min() - i);
+    }
 };
 
 } // namespace gtl
-- 
2.43.0


From 3702921dba3677d1a6eb1507b141239f94232c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:01 +0000
Subject: [PATCH 35/54] fix: slice() drops the last element when the stride
 does not divide the length

---
 include/gtl/vec_utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vec_utils.hpp b/include/gtl/vec_utils.hpp
index 968e36b..3813dc5 100644
--- a/include/gtl/vec_utils.hpp
+++ b/include/gtl/vec_utils.hpp
@@ -11,6 +11,8 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 #include <concepts>
+#include <cstddef>
+#include <iterator>
 #include <type_traits>
 #include <vector>
 
@@ -51,10 +53,10 @@ auto slice(V&& v, int first = 0, int last = -1, int stride = 1) {
         (first >= 0 ? std::begin(std::forward<V>(v)) + first : std::end(std::forward<V>(v)) + (first + 1));
     auto last_iter = (last >= 0 ? std::begin(std::forward<V>(v)) + last : std::end(std::forward<V>(v)) + (last + 1));
     if (last_iter > first_iter) {
-        std::size_t cnt = (last_iter - first_iter) / stride;
+        std::size_t cnt = std::size_t(last_iter - first_iter - 1) / std::size_t(stride) + 1;
         res.reserve(cnt);
-        for (; cnt-- != 0; first_iter += stride)
-            res.push_back(*first_iter);
+        for (std::size_t i = 0; i < cnt; ++i)
+            res.push_back(first_iter[std::ptrdiff_t(i) * stride]);
     }
     return res;
 }
-- 
2.43.0


From 58299d534413f0946957901054b0ed24065167f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:01 +0000
Subject: [PATCH 36/54] fix: combinators.hpp does not compile

---
 include/gtl/combinators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gtl/combinators.hpp b/include/gtl/combinators.hpp
index 9400c76..cbc2b3e 100644
--- a/include/gtl/combinators.hpp
+++ b/include/gtl/combinators.hpp
@@ -1,4 +1,4 @@
-pragma once
+#pragma once
 
 /*
  * from https://github.com/codereport/blackbird  - Copyright (c) 2022 Conor Hoekstra
@@ -6,7 +6,9 @@ pragma once
  * MIT License: https://github.com/codereport/blackbird/blob/main/LICENSE
  */
 
+#include <algorithm>
 #include <functional>
+#include <tuple>
 
     namespace combinators {
 
-- 
2.43.0


From 8aff70e71b7e47298a6720c638d7da4bafb3d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:37 +0000
Subject: [PATCH 37/54] fix: a hash container moved from has lost its hash and
 equality functions

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index cd015ea..4fb1f10 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1844,7 +1844,7 @@ public:
         // `that` must be left valid. If Hash is std::function<Key>, moving it
         // would create a nullptr functor that cannot be called.
         // -------------------------------------------------------------------
-        settings_(std::move(that.settings_)) {
+        settings_(that.settings_) {
         // growth_left was copied above, reset the one from `that`.
         that.growth_left() = 0;
     }
-- 
2.43.0


From fb00196990c3c7682b2ae538232b85d5945f2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:37 +0000
Subject: [PATCH 38/54] fix: a btree container moved from has lost its
 comparison function

---
 include/gtl/btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..51be6d5 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1499,7 +1499,7 @@ public:
     btree(const btree& x);
 
     btree(btree&& x) noexcept
-        : root_(std::move(x.root_))
+        : root_(x.root_) // x keeps a usable key comparator
         , rightmost_(std::exchange(x.rightmost_, EmptyNode()))
         , size_(std::exchange(x.size_, 0)) {
         x.mutable_root() = EmptyNode();
-- 
2.43.0


From 7a3d5d10bffe710759e05cc9782b866b667fd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 39/54] fix: memoize of a function with reference parameters
 kept references to dead arguments

---
 include/gtl/memoize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..b392702 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -74,7 +74,7 @@ class mt_memoize;
 template<class F, bool recursive, size_t N, class Mutex, class... Args>
 class mt_memoize<F, recursive, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // stored: must not refer to the arguments
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using map_type    = gtl::parallel_flat_hash_map<key_type,
                                                  result_type,
@@ -177,7 +177,7 @@ class mt_memoize_lru;
 template<class F, size_t N, class Mutex, class... Args>
 class mt_memoize_lru<F, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // stored: must not refer to the arguments
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using value_type  = typename std::pair<const key_type, result_type>;
 
-- 
2.43.0


From 96e4a2a08d8bd806ab58427e5839564a5e5c7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:29 +0000
Subject: [PATCH 40/54] fix: memoize_lru of a recursive function corrupted its
 cache

---
 include/gtl/memoize.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index b392702..f9a983f 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -219,6 +219,16 @@ public:
     result_type operator()(Args... args) {
         key_type    key(args...);
         result_type res;
+        if constexpr (std::is_same_v<Mutex, gtl::NullMutex>) {
+            // the function may be recursive, so don't call it while the hash map is being modified
+            // -------------------------------------------------------------------------------------
+            if (_cache.modify_if(key, [&](typename map_type::value_type& v, list_type& l) {
+                    res = v.second->second;
+                    l.splice(l.begin(), l, v.second);
+                }))
+                return res;
+            res = _f(args...);
+        }
         _cache.lazy_emplace_l(
             key,
             [&](typename map_type::value_type& v, list_type& l) {
@@ -228,7 +238,8 @@ public:
             },
             [&](const typename map_type::constructor& ctor, list_type& l) {
                 // construct value_type in place when key not present
-                res = _f(args...);
+                if constexpr (!std::is_same_v<Mutex, gtl::NullMutex>)
+                    res = _f(args...);
                 l.push_front(value_type(key, res));
                 ctor(key, l.begin());
                 if (l.size() >= _max_size) {
-- 
2.43.0


From 1bf2d8c17ef2dba00e358ef3f298d2dac3a285b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 41/54] fix: a copy of an lru_cache shared the list entries of
 its source

---
 include/gtl/lru_cache.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..674eb33 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -14,6 +14,7 @@
 #include <cassert>
 #include <cstddef>
 #include <gtl/phmap.hpp>
+#include <limits>
 #include <list>
 #include <optional>
 
@@ -56,6 +57,25 @@ public:
         assert(_max_size > 2);
     }
 
+    // the map refers to the elements of the lists, so a copy needs lists of its own
+    // ------------------------------------------------------------------------------
+    lru_cache_impl(const lru_cache_impl& o)
+        : _max_size((std::numeric_limits<size_t>::max)()) {
+        for (size_t i = 0; i < num_submaps; ++i) {
+            o._cache.with_submap(i, [&](const auto&) {
+                const list_type& l = o._cache.get_inner(i).aux_;
+                for (auto it = l.rbegin(); it != l.rend(); ++it)
+                    insert(it->first, it->second);
+            });
+        }
+        _max_size = o._max_size;
+    }
+
+    lru_cache_impl(lru_cache_impl&&) = default;
+
+    lru_cache_impl& operator=(const lru_cache_impl& o) { return *this = lru_cache_impl(o); }
+    lru_cache_impl& operator=(lru_cache_impl&&) = default;
+
     bool exists(const K& k) {
         return _cache.if_contains(k, [&](const auto&, list_type&) {});
     }
-- 
2.43.0


From b875fc9487fc3b03055429342e487e975e7375e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 42/54] fix: lru_cache::get reordered the list under a shared
 lock

---
 include/gtl/lru_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index 674eb33..c140b1f 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -81,7 +81,8 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        if (result_type res; _cache.modify_if(k, [&](auto& v, list_type& l) {
+                // reorders the list, so needs the write lock
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 76b2fb02721fb2c57a4a2ecd1374e7b09b50e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 43/54] fix: a copy of an mt_memoize_lru shared the list
 entries of its source

---
 include/gtl/memoize.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index f9a983f..d2152ff 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -209,6 +209,32 @@ public:
         assert(_max_size > 2);
     }
 
+    // the map refers to the elements of the lists, so a copy needs lists of its own
+    // ------------------------------------------------------------------------------
+    mt_memoize_lru(const mt_memoize_lru& o)
+        : _f(o._f)
+        , _max_size(o._max_size) {
+        for (size_t i = 0; i < num_submaps; ++i) {
+            o._cache.with_submap(i, [&](const auto&) {
+                const list_type& src = o._cache.get_inner(i).aux_;
+                for (auto it = src.rbegin(); it != src.rend(); ++it)
+                    _cache.lazy_emplace_l(
+                        it->first,
+                        [](typename map_type::value_type&, list_type&) {},
+                        [&](const typename map_type::constructor& ctor, list_type& l) {
+                            l.push_front(*it);
+                            ctor(it->first, l.begin());
+                            return std::optional<key_type>{};
+                        });
+            });
+        }
+    }
+
+    mt_memoize_lru(mt_memoize_lru&&) = default;
+
+    mt_memoize_lru& operator=(const mt_memoize_lru& o) { return *this = mt_memoize_lru(o); }
+    mt_memoize_lru& operator=(mt_memoize_lru&&) = default;
+
     std::optional<result_type> contains(Args... args) {
         key_type key(args...);
         if (result_type res; _cache.if_contains(key, [&](const auto& v, list_type&) { res = v.second->second; }))
-- 
2.43.0


From b5f51b58268c6263f870538d3cc6ebeeacba734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 44/54] fix: loading a small table from an archive of the
 earlier format failed an assertion

---
 include/gtl/phmap_dump.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 8917e25..33dcc8d 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -102,7 +102,11 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
     ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
     if (version == 0) {
-        drop_deletes_without_resize(); // because we didn't load `&growth_left()`
+        // because we didn't load `&growth_left()`
+        if (is_small())
+            reset_growth_left(capacity_); // small tables have no deleted slots
+        else
+            drop_deletes_without_resize();
     }
     return true;
 }
-- 
2.43.0


From 522540f59812b4d7e26a1e54f4f11033747f62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 45/54] fix: a load which runs out of memory left a container
 with a size and no storage

---
 include/gtl/phmap_dump.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 33dcc8d..6fa3dee 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -76,24 +76,25 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
                   "value_type should be trivially copyable");
     // clear any existing content, keeping the hash and equality functions and the allocator
     raw_hash_set<Policy, Hash, Eq, Alloc>(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this);
-    size_t version = 0;
+    size_t version = 0, size = 0, capacity = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
+        size    = version;
         version = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        ar.loadBinary(&size, sizeof(size_t));
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    ar.loadBinary(&capacity, sizeof(size_t));
 
-    if (capacity_) {
+    if (capacity) {
         // allocate memory for ctrl_ and slots_
-        initialize_slots(capacity_);
+        initialize_slots(capacity);
+        capacity_ = capacity; // only now, as the allocation may throw
     }
-    if (size_ == 0)
+    if (size == 0)
         return true;
     if (version > 0) {
         // growth_left should be restored after calling initialize_slots() which resets it.
@@ -101,6 +102,7 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     }
     ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
     ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
+    size_ = size;
     if (version == 0) {
         // because we didn't load `&growth_left()`
         if (is_small())
-- 
2.43.0


From 3c7875ec161ee7e9cbde7378f33ec2758713204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 46/54] fix: vector computed a wrapped allocation size for more
 than max_size() elements

---
 include/gtl/vector.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 2dc900c..a94922a 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstddef>
+#include <cstdint>
 #include <iterator>
 #include <memory>
 #include <stdexcept>
@@ -189,7 +190,7 @@ private:
             if (UNLIKELY(n == 0)) {
                 b_ = e_ = z_ = nullptr;
             } else {
-                size_type sz = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+                size_type sz = gtl::goodMallocSize(checkedSize(n) * sizeof(T)) / sizeof(T);
                 b_           = D_allocate(sz);
                 e_           = b_;
                 z_           = b_ + sz;
@@ -252,6 +253,16 @@ private:
     static constexpr bool usingMalloc = usingStdAllocator && alignof(T) <= alignof(std::max_align_t);
     typedef std::bool_constant<usingStdAllocator || A::propagate_on_container_move_assignment::value> moveIsSwap;
 
+    // a size in bytes and the difference of two pointers must be representable
+    static constexpr size_t maxSize = size_t(PTRDIFF_MAX) / sizeof(T);
+
+    static size_t checkedSize(size_t n) {
+        if (UNLIKELY(n > maxSize)) {
+            throw std::length_error("vector");
+        }
+        return n;
+    }
+
     //===========================================================================
     //---------------------------------------------------------------------------
     // allocator helpers
@@ -890,7 +901,7 @@ public:
 
     size_type max_size() const noexcept {
         // good luck gettin' there
-        return ~size_type(0);
+        return maxSize;
     }
 
     void resize(size_type n) {
@@ -927,7 +938,7 @@ public:
             return;
         }
 
-        auto newCap = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+        auto newCap = gtl::goodMallocSize(checkedSize(n) * sizeof(T)) / sizeof(T);
         auto newB   = M_allocate(newCap);
         {
             scoped_guard rollback([&] { M_deallocate(newB, newCap); });
@@ -1397,6 +1408,9 @@ private: // we have the private section first because it defines some macros
         if (n == 0) {
             return const_cast<iterator>(cpos);
         }
+        if (UNLIKELY(n > maxSize - size())) {
+            throw std::length_error("vector");
+        }
         bool at_end = cpos == cend();
         bool fresh  = insert_use_fresh(at_end, n);
         if (!at_end) {
-- 
2.43.0


From 011c1b77efd0e4c6654b2f1436acf6cefc7264c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 47/54] fix: hash tables computed a wrapped allocation size for
 huge capacities

---
 include/gtl/gtl_base.hpp | 1 +
 include/gtl/phmap.hpp    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/gtl/gtl_base.hpp b/include/gtl/gtl_base.hpp
index 90c164c..a03a77e 100644
--- a/include/gtl/gtl_base.hpp
+++ b/include/gtl/gtl_base.hpp
@@ -979,6 +979,7 @@ namespace {
 
 static inline void ThrowStdOutOfRange(const std::string& what_arg) { GTL_THROW_IMPL_MSG(std::out_of_range, what_arg); }
 static inline void ThrowStdOutOfRange(const char* what_arg) { GTL_THROW_IMPL_MSG(std::out_of_range, what_arg); }
+static inline void ThrowStdLengthError(const char* what_arg) { GTL_THROW_IMPL_MSG(std::length_error, what_arg); }
 
 } // gtl
 
diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 4fb1f10..6f9c97d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2674,6 +2674,10 @@ private:
         assert(new_capacity);
         if (std::is_same_v<SlotAlloc, std::allocator<slot_type>> && slots_ == nullptr) {}
 
+        // the size of the allocation must not overflow
+        if (new_capacity > (std::numeric_limits<size_t>::max)() / 2 / (sizeof(slot_type) + sizeof(ctrl_t)) - 2 * Group::kWidth)
+            ThrowStdLengthError("phmap: capacity too large");
+
         auto  layout = MakeLayout(new_capacity);
         char* mem    = static_cast<char*>(Allocate<Layout::Alignment()>(&alloc_ref(), layout.AllocSize()));
         ctrl_        = reinterpret_cast<ctrl_t*>(layout.template Pointer<0>(mem));
-- 
2.43.0


From bc87c3716f4a85639bcc1a40228745beb6dc86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 48/54] fix: b-tree insertion of an own element read moved
 values, and a throwing copy broke the tree

---
 include/gtl/btree.hpp | 59 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 51be6d5..55966bd 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1852,12 +1852,45 @@ private:
     iterator       internal_end(iterator iter) { return iter.node != nullptr ? iter : end(); }
     const_iterator internal_end(const_iterator iter) const { return iter.node != nullptr ? iter : end(); }
 
+    // True if a value is constructed from `Args` just by moving a value.
+    // ------------------------------------------------------------------
+    template<typename... Args>
+    struct is_moved_value : std::false_type {};
+    template<typename Arg>
+    struct is_moved_value<Arg&&>
+        : std::bool_constant<std::is_same_v<Arg, slot_type*> || std::is_same_v<Arg, typename params_type::init_type>> {};
+
+    // A value which is not in a node yet.
+    // -----------------------------------
+    class pending_value {
+    public:
+        template<typename... Args>
+        explicit pending_value(allocator_type* alloc, Args&&... args)
+            : alloc_(alloc) {
+            params_type::construct(alloc_, slot(), std::forward<Args>(args)...);
+        }
+        ~pending_value() { params_type::destroy(alloc_, slot()); }
+        pending_value(const pending_value&)            = delete;
+        pending_value& operator=(const pending_value&) = delete;
+
+        slot_type* slot() { return reinterpret_cast<slot_type*>(&storage_); }
+
+    private:
+        allocator_type* alloc_;
+        alignas(slot_type) unsigned char storage_[sizeof(slot_type)];
+    };
+
     // Emplaces a value into the btree immediately before iter. Requires that
     // key(v) <= iter.key() and (--iter).key() <= key(v).
     // ----------------------------------------------------------------------
     template<typename... Args>
     iterator internal_emplace(iterator iter, Args&&... args);
 
+    // Same, for an argument which is just moved (see is_moved_value).
+    // ----------------------------------------------------------------
+    template<typename Arg>
+    iterator internal_emplace_value(iterator iter, Arg&& arg);
+
     // Returns an iterator pointing to the first value >= the value "iter" is
     // pointing at. Note that "iter" might be pointing to an invalid location as
     // iter.position == iter.node->count(). This routine simply moves iter up in
@@ -2362,7 +2395,7 @@ template<typename P>
 template<typename... Args>
 auto btree<P>::insert_unique(const key_type& key, Args&&... args) -> std::pair<iterator, bool> {
     if (empty()) {
-        mutable_root() = rightmost_ = new_leaf_root_node(1);
+        return { internal_emplace(end(), std::forward<Args>(args)...), true };
     }
 
     auto      res  = internal_locate(key);
@@ -2424,7 +2457,7 @@ template<typename P>
 template<typename ValueType>
 auto btree<P>::insert_multi(const key_type& key, ValueType&& v) -> iterator {
     if (empty()) {
-        mutable_root() = rightmost_ = new_leaf_root_node(1);
+        return internal_emplace(end(), std::forward<ValueType>(v));
     }
 
     iterator iter = internal_upper_bound(key);
@@ -2951,7 +2984,25 @@ inline IterType btree<P>::internal_last(IterType iter) {
 template<typename P>
 template<typename... Args>
 inline auto btree<P>::internal_emplace(iterator iter, Args&&... args) -> iterator {
-    if (!iter.node->leaf()) {
+    if constexpr (is_moved_value<Args&&...>::value) {
+        return internal_emplace_value(iter, std::forward<Args>(args)...);
+    } else {
+        // Construct the value before making room for it: if that throws, the
+        // tree has not been changed yet, and `args` may refer to values in this
+        // tree which are moved when making room.
+        // ---------------------------------------------------------------------
+        pending_value value(mutable_allocator(), std::forward<Args>(args)...);
+        return internal_emplace_value(iter, value.slot());
+    }
+}
+
+template<typename P>
+template<typename Arg>
+inline auto btree<P>::internal_emplace_value(iterator iter, Arg&& arg) -> iterator {
+    if (empty()) {
+        mutable_root() = rightmost_ = new_leaf_root_node(1);
+        iter                        = iterator(root(), 0);
+    } else if (!iter.node->leaf()) {
         // We can't insert on an internal node. Instead, we'll insert after the
         // previous value which is guaranteed to be on a leaf node.
         // --------------------------------------------------------------------
@@ -2975,7 +3026,7 @@ inline auto btree<P>::internal_emplace(iterator iter, Args&&... args) -> iterato
             rebalance_or_split(&iter);
         }
     }
-    iter.node->emplace_value(iter.position, mutable_allocator(), std::forward<Args>(args)...);
+    iter.node->emplace_value(iter.position, mutable_allocator(), std::forward<Arg>(arg));
     ++size_;
     return iter;
 }
-- 
2.43.0


From e17697409c23cdccc5ab4e6a95c21ce1fa5af266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:27 +0000
Subject: [PATCH 49/54] fix: a failing allocation in a b-tree split left nodes
 without values

---
 include/gtl/btree.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 55966bd..835f42f 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -61,6 +61,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <limits>
+#include <memory>
 #include <new>
 #include <optional>
 
@@ -2779,6 +2780,13 @@ void btree<P>::rebalance_or_split(iterator* iter) {
     assert(node->count() == node->max_count());
     assert(kNodeValues == node->max_count());
 
+    // All nodes are allocated before the tree is changed, so that it is left
+    // as it was if an allocation throws.
+    // ----------------------------------------------------------------------
+    auto new_node    = [&] { return node->leaf() ? new_leaf_node(node) : new_internal_node(node); };
+    auto delete_node = [&](node_type* n) { n->leaf() ? delete_leaf_node(n) : delete_internal_node(n); };
+    std::unique_ptr<node_type, decltype(delete_node)> new_split_node(nullptr, delete_node);
+
     // First try to make room on the node by rebalancing.
     // --------------------------------------------------
     node_type* parent = node->parent();
@@ -2843,6 +2851,7 @@ void btree<P>::rebalance_or_split(iterator* iter) {
         // value.
         // ------------------------------------------------------------------------
         assert(parent->max_count() == kNodeValues);
+        new_split_node.reset(new_node());
         if (parent->count() == kNodeValues) {
             iterator parent_iter(node->parent(), node->position());
             rebalance_or_split(&parent_iter);
@@ -2852,6 +2861,7 @@ void btree<P>::rebalance_or_split(iterator* iter) {
         // Create a new root node and set the current root node as the child of the
         // new root.
         // ------------------------------------------------------------------------
+        new_split_node.reset(new_node());
         parent = new_internal_node(parent);
         parent->init_child(0, root());
         mutable_root() = parent;
@@ -2862,14 +2872,12 @@ void btree<P>::rebalance_or_split(iterator* iter) {
 
     // Split the node.
     // ---------------
-    node_type* split_node;
+    node_type* split_node = new_split_node.release();
     if (node->leaf()) {
-        split_node = new_leaf_node(parent);
         node->split(insert_position, split_node, mutable_allocator());
         if (rightmost_ == node)
             rightmost_ = split_node;
     } else {
-        split_node = new_internal_node(parent);
         node->split(insert_position, split_node, mutable_allocator());
     }
 
-- 
2.43.0


From c030643841a78b2df9e65d5ae161f86519b6d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 50/54] fix: lru_cache: keep the list and the map in step when
 a copy throws

If copying a key (or allocating) threw while a new key was being inserted, the
list kept an entry the map did not know, or the map an iterator to an entry
already removed from the list. Do everything that can throw first.
---
 include/gtl/lru_cache.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index c140b1f..0aefd70 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -101,17 +101,17 @@ public:
             },
             [&](const typename map_type::constructor& ctor, list_type& l) {
                 // construct value_type in place when key not present
-                l.push_front(value_type(key, std::forward<Val>(value)));
-                ctor(key, l.begin());
-                if (l.size() > _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                // (all that can throw comes first, so that the map and the list stay in step)
+                list_type node;
+                node.emplace_front(key, std::forward<Val>(value));
+                std::optional<key_type> to_delete;
+                if (l.size() >= _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                ctor(key, node.begin());
+                l.splice(l.begin(), node);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
     }
 
-- 
2.43.0


From 0f8573681df006edb43a9e5697b2e788fb2a8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 51/54] fix: mt_memoize_lru: keep the list and the map in step
 when a copy throws

As for lru_cache: the map could be left with an iterator to an entry already
removed from the list.
---
 include/gtl/memoize.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index d2152ff..7401607 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -266,17 +266,17 @@ public:
                 // construct value_type in place when key not present
                 if constexpr (!std::is_same_v<Mutex, gtl::NullMutex>)
                     res = _f(args...);
-                l.push_front(value_type(key, res));
-                ctor(key, l.begin());
-                if (l.size() >= _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                // (all that can throw comes first, so that the map and the list stay in step)
+                list_type node;
+                node.emplace_front(key, res);
+                std::optional<key_type> to_delete;
+                if (l.size() + 1 >= _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                ctor(key, node.begin());
+                l.splice(l.begin(), node);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
         return res;
     }
-- 
2.43.0


From 4f49754383d0e9584099e07f2fda80ada5f14041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 52/54] fix: soa: a comparator may sort another soa

The scratch data of sort_by_field() is shared by the nested sorts of a thread,
which destroyed the order of the outer one while it was used.
---
 include/gtl/soa.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gtl/soa.hpp b/include/gtl/soa.hpp
index b3f901f..768071e 100644
--- a/include/gtl/soa.hpp
+++ b/include/gtl/soa.hpp
@@ -108,7 +108,8 @@ public:
     template<size_t col_idx, typename C>
     void sort_by_field(C&& comp) {
         size_t                 num_elems = size();
-        thread_local sort_data sort_tmp; // thread_local makes it static
+        thread_local sort_data cached; // thread_local makes it static
+        sort_data              sort_tmp(std::move(cached)); // comp may sort another soa meanwhile
 
         sort_tmp.resize(num_elems);
         for (size_t i = 0; i < num_elems; ++i)
@@ -121,6 +122,7 @@ public:
         std::stable_sort(sort_tmp.o.begin(), sort_tmp.o.end(), comp_wrapper);
 
         sort_by_reference_impl(sort_tmp, std::index_sequence_for<Ts...>{});
+        cached = std::move(sort_tmp);
     }
 
     template<size_t col_idx>
-- 
2.43.0


From 714d061ada09ceb04baefa996686802f3e100a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 53/54] fix: phmap_load and phmap_dump: report an incomplete
 archive

A truncated archive, or a file that is not there, was loaded as if all was well:
phmap_load returned true and the container held whatever was in the memory which
the archive did not fill. Reading stops and false is returned, with the container
left empty; phmap_dump reports an archive which could not take all of it.
---
 include/gtl/phmap_dump.hpp | 70 ++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 6fa3dee..45f9030 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -49,6 +49,27 @@ namespace priv {
 static constexpr size_t s_version_base = std::numeric_limits<size_t>::max() - 32;
 static constexpr size_t s_version      = s_version_base + 1;
 
+// an archive may report failure by returning false (some return void, and throw instead)
+template<typename OutputArchive>
+bool dump_bytes(OutputArchive& ar, const void* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.saveBinary(p, sz)), bool>) {
+        return ar.saveBinary(p, sz);
+    } else {
+        ar.saveBinary(p, sz);
+        return true;
+    }
+}
+
+template<typename InputArchive>
+bool load_bytes(InputArchive& ar, void* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.loadBinary(p, sz)), bool>) {
+        return ar.loadBinary(p, sz);
+    } else {
+        ar.loadBinary(p, sz);
+        return true;
+    }
+}
+
 // ------------------------------------------------------------------------
 // dump/load for raw_hash_set
 // ------------------------------------------------------------------------
@@ -58,15 +79,14 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_dump(OutputArchive& ar) const
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
 
-    ar.saveBinary(&s_version, sizeof(size_t));
-    ar.saveBinary(&size_, sizeof(size_t));
-    ar.saveBinary(&capacity_, sizeof(size_t));
+    if (!dump_bytes(ar, &s_version, sizeof(size_t)) || !dump_bytes(ar, &size_, sizeof(size_t)) ||
+        !dump_bytes(ar, &capacity_, sizeof(size_t)))
+        return false;
     if (size_ == 0)
         return true;
-    ar.saveBinary(&growth_left(), sizeof(size_t));
-    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);
-    return true;
+    return dump_bytes(ar, &growth_left(), sizeof(size_t)) &&
+           dump_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&
+           dump_bytes(ar, slots_, sizeof(slot_type) * capacity_);
 }
 
 template<class Policy, class Hash, class Eq, class Alloc>
@@ -77,17 +97,20 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     // clear any existing content, keeping the hash and equality functions and the allocator
     raw_hash_set<Policy, Hash, Eq, Alloc>(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this);
     size_t version = 0, size = 0, capacity = 0;
-    ar.loadBinary(&version, sizeof(size_t));
+    if (!load_bytes(ar, &version, sizeof(size_t)))
+        return false;
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
         size    = version;
         version = 0;
     } else {
-        ar.loadBinary(&size, sizeof(size_t));
+        if (!load_bytes(ar, &size, sizeof(size_t)))
+            return false;
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity, sizeof(size_t));
+    if (!load_bytes(ar, &capacity, sizeof(size_t)))
+        return false;
 
     if (capacity) {
         // allocate memory for ctrl_ and slots_
@@ -96,12 +119,15 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     }
     if (size == 0)
         return true;
-    if (version > 0) {
-        // growth_left should be restored after calling initialize_slots() which resets it.
-        ar.loadBinary(&growth_left(), sizeof(size_t));
+    // growth_left should be restored after calling initialize_slots() which resets it.
+    if ((version > 0 && !load_bytes(ar, &growth_left(), sizeof(size_t))) ||
+        !load_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) ||
+        !load_bytes(ar, slots_, sizeof(slot_type) * capacity_)) {
+        // the archive is incomplete: forget what was loaded of it
+        reset_ctrl(capacity_);
+        reset_growth_left(capacity_);
+        return false;
     }
-    ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
     size_ = size;
     if (version == 0) {
         // because we didn't load `&growth_left()`
@@ -131,7 +157,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = subcnt();
-    ar.saveBinary(&submap_count, sizeof(size_t));
+    if (!dump_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     for (size_t i = 0; i < sets_.size(); ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -158,7 +185,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = 0;
-    ar.loadBinary(&submap_count, sizeof(size_t));
+    if (!load_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     if (submap_count != subcnt()) {
         std::cerr << "submap count(" << submap_count << ") != N(" << N << ")" << std::endl;
         return false;
@@ -198,13 +226,13 @@ public:
 
     bool saveBinary(const void* p, size_t sz) {
         ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return ofs_.good();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type saveBinary(const V& v) {
         ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
-        return true;
+        return ofs_.good();
     }
 
     template<typename Map>
@@ -226,13 +254,13 @@ public:
 
     bool loadBinary(void* p, size_t sz) {
         ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return ifs_.good();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type loadBinary(V* v) {
         ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
-        return true;
+        return ifs_.good();
     }
 
     template<typename Map>
-- 
2.43.0


From 1979595fce7e819c4eee7cb03e06fe0c3d6529e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 54/54] fix: GetProcessMemoryUsed: processes of more than 2 TB

The size in kB was parsed as an int, and came out wrong from 2^31 kB on
(any process under the address sanitizer, for example).
---
 include/gtl/meminfo.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/gtl/meminfo.hpp b/include/gtl/meminfo.hpp
index 68170f0..21e7480 100644
--- a/include/gtl/meminfo.hpp
+++ b/include/gtl/meminfo.hpp
@@ -131,7 +131,7 @@ uint64_t GetProcessMemoryUsed() {
     GetProcessMemoryInfo(GetCurrentProcess(), reinterpret_cast<PPROCESS_MEMORY_COUNTERS>(&pmc), sizeof(pmc));
     return static_cast<uint64_t>(pmc.PrivateUsage);
 #elif defined(__linux__)
-    auto parseLine = [](char* line) -> int {
+    auto parseLine = [](char* line) -> long long {
         auto i = strlen(line);
 
         while (*line < '0' || *line > '9') {
@@ -139,12 +139,11 @@ uint64_t GetProcessMemoryUsed() {
         }
 
         line[i - 3] = '\0';
-        i           = atoi(line);
-        return i;
+        return atoll(line); // kB: can be more than an int holds
     };
 
     auto file   = fopen("/proc/self/status", "r");
-    auto result = -1;
+    auto result = -1LL;
     char line[128];
 
     while (fgets(line, 128, file) != nullptr) {
-- 
2.43.0

