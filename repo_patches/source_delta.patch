From a39affadf06719bbcec15dfae7824cce4708a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:52 +0000
Subject: [PATCH 01/42] fix: rehash(0) must leave room below the maximum load
 factor

rehash() normalised the element count itself as the new capacity, so a table
holding exactly 2^k-1 elements was rebuilt 100% full: growth_left underflowed
and the next unsuccessful lookup never terminated.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..9fb9e2a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2345,7 +2345,7 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From 7758bf32263e8d66ae9beabc0ed9eafb360c9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:15 +0000
Subject: [PATCH 02/42] fix: erase in a parallel container must not claim a key
 another thread erased

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9fb9e2a..9dee498 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3924,7 +3924,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From 40571c157f962748c1d8793dcacad4d9f0fa7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:15 +0000
Subject: [PATCH 03/42] fix: clear() of a parallel container with an auxiliary
 container did not compile

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9dee498..f8ae011 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3578,7 +3578,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3589,7 +3589,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From f5659c6beb85f74c993d6d97f7d657985003bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:15 +0000
Subject: [PATCH 04/42] fix: hinted node insertion into a parallel container
 did not compile

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f8ae011..dd48a79 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3675,7 +3675,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From 7095f36ccb5cb7e2558c67691235ed03268eff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:41 +0000
Subject: [PATCH 05/42] fix: emplace of a parallel container from arguments
 that do not reveal the key

---
 include/gtl/phmap.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index dd48a79..25eea50 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3731,8 +3731,8 @@ public:
         Inner&                                                  inner = sets_[subidx(hashval)];
         auto&                                                   set   = inner.set_;
         UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
@@ -3795,17 +3795,17 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
-- 
2.43.0


From d3cb8be22678570605a93b5b5d4490c3f83bb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:41 +0000
Subject: [PATCH 06/42] fix: comparing or swapping a parallel container with
 itself must not deadlock

---
 include/gtl/phmap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 25eea50..d16561c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4134,6 +4134,9 @@ public:
         using std::swap;
         using Lockable2 = LockableImpl<Mtx2_>;
 
+        if (static_cast<void*>(this) == static_cast<void*>(&that))
+            return; // would lock the same mutexes twice
+
         for (size_t i = 0; i < num_tables; ++i) {
             UniqueLock                     l(sets_[i]);
             typename Lockable2::UniqueLock l2(that.get_inner(i));
@@ -4277,7 +4280,7 @@ public:
     allocator_type get_allocator() const { return alloc_ref(); }
 
     friend bool operator==(const parallel_hash_set& a, const parallel_hash_set& b) {
-        return std::equal(a.sets_.begin(), a.sets_.end(), b.sets_.begin());
+        return &a == &b || std::equal(a.sets_.begin(), a.sets_.end(), b.sets_.begin());
     }
 
     friend bool operator!=(const parallel_hash_set& a, const parallel_hash_set& b) { return !(a == b); }
-- 
2.43.0


From bbc099327781723747d133af28b36821b9a31f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:42 +0000
Subject: [PATCH 07/42] fix: vector::emplace in the middle must cope with
 arguments that refer to its own elements

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..e7b11b4 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1465,8 +1465,8 @@ public:
         return do_real_insert(
             cpos,
             1,
-            [&] { return false; },
-            [&] { return iterator{}; },
+            [&] { return true; }, // `args` may refer to elements which are about to be shifted
+            [&] { return insert(cpos, T(std::forward<Args>(args)...)); },
             [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
             [&](iterator start) { M_destroy(start); });
     }
-- 
2.43.0


From 5b484707be196fdbd0295c88425b52dd46fc0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 08/42] fix: set() and reset() of an empty bit_vector must not
 touch storage that does not exist

---
 include/gtl/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..28e5cfc 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -315,6 +315,8 @@ public:
     template<vt flags, class F>
     void visit_all([[maybe_unused]] F f) {
         size_t num_slots = slot_cnt(_sz);
+        if (!num_slots)
+            return;
         if constexpr (flags & vt::false_) {
             // set all bits to 0
             // std::fill(&_s[0], &_s[0] + num_slots, 0);
@@ -328,8 +330,6 @@ public:
                 _s[num_slots - 1] &= ~m; // mask last bits to 0
             }
         } else {
-            if (!num_slots)
-                return;
             size_t slot;
             for (slot = 0; slot < num_slots - 1; ++slot) {
                 const uint64_t s  = _s[slot];
-- 
2.43.0


From 5e3693bb089ca6d2c1d606d0dea88989a5901bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 09/42] fix: assigning a word to a bit_view spanning two slots
 shifted by a negative amount

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 28e5cfc..f3a65c8 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -531,7 +531,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From 6a5c642bce325bdf6d70eee2c822d404d3e99671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 10/42] fix: bit_vector::resize(n, true) must set every new
 bit, also those in the current last slot

---
 include/gtl/bit_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index f3a65c8..1c63fdb 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,8 +80,11 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
+        size_t old_sz    = _sz;
         _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
+        if (val && mod(old_sz) && num_bits > old_sz)
+            _s[slot(old_sz)] |= himask(old_sz); // new bits which fall in the current last slot
         _s.resize(num_slots, val ? ones : 0);
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
@@ -367,7 +370,7 @@ private:
     }
 
     std::vector<uint64_t, A> _s;
-    size_t                   _sz;
+    size_t                   _sz = 0;
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From a6569dd6755d9017f09c2b8f276155ea09c1d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 11/42] fix: find_first and find_next returned a wrong index
 for a bit in the last slot of an unaligned view

---
 include/gtl/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 1c63fdb..1cd0abc 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -684,6 +684,8 @@ public:
     size_t find_first() const {
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
+            if (shift < 0)
+                shift = 0; // last slot, its bits start at its beginning
             if (v) {
                 idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
                 return true;                   // stop iterating
-- 
2.43.0


From ab3fbe7c145227ebac20a66b9625af29d5b746ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 12/42] fix: bit_vector::contains must not read past the end of
 a smaller argument

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 1cd0abc..fae75df 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -631,7 +631,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From 0b7df945298eb31222d8864b99a4f0395d8a4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 13/42] fix: assigning a bit_view to a later one of the same
 bit_vector wrote to the source or lost bits

---
 include/gtl/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index fae75df..5d2dda7 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -552,13 +552,13 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first <= o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
-        } else if (_first > o._first) {
+        } else {
             // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+            for (size_t i = size(); i-- > 0;)
+                set(i, o[i]);
         }
         return *this;
     }
-- 
2.43.0


From 6c2b65bf27559399aecc0867f3cd231d2f6c0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 14/42] fix: countr_zero must be inline, the header could not
 be included in two translation units

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 5d2dda7..f90adb7 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -49,7 +49,7 @@ static constexpr size_t _popcount64(uint64_t y) {
 }
 
 // De Bruijn Multiplication With separated LS1B - author Kim Walisch (2012)
-unsigned countr_zero(uint64_t bb) {
+inline unsigned countr_zero(uint64_t bb) {
     const unsigned index64[64] = { 0,  47, 1,  56, 48, 27, 2,  60, 57, 49, 41, 37, 28, 16, 3,  61,
                                    54, 58, 35, 52, 50, 42, 21, 44, 38, 32, 29, 23, 17, 11, 4,  62,
                                    46, 55, 26, 59, 40, 36, 15, 53, 34, 51, 20, 43, 31, 22, 10, 45,
-- 
2.43.0


From 9e57686656378bb861ff73927ba72f0515a76ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:26 +0000
Subject: [PATCH 15/42] fix: compound assignment of a bit_view from an
 overlapping view of the same bit_vector read changed bits

---
 include/gtl/bit_vector.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index f90adb7..aa2d3e5 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -438,34 +438,35 @@ public:
     template<class F>
     _view& bin_assign(const _view& o, F&& f) noexcept {
         assert(size() == o.size());
-        (void)o;
-        _bv.storage().template visit<vt::none>(_first, _last, std::forward<F>(f));
+        if (&_bv == &o._bv && _first > o._first && _first < o._last) {
+            // o overlaps the beginning of this view: going forward would read bits we already changed
+            for (size_t i = size(); i-- > 0;)
+                set(i, f((uint64_t)(*this)[i], (uint64_t)o[i]) & 1);
+        } else {
+            typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
+            _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t a, int) { return f(a, seq()); });
+        }
         return *this;
     }
 
     _view& operator|=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | seq(); });
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a | b; });
     }
 
     _view& operator&=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & seq(); });
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a & b; });
     }
 
     _view& operator^=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a ^ seq(); });
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a ^ b; });
     }
 
     _view& operator-=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & ~seq(); });
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a & ~b; });
     }
 
     _view& or_not(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | ~seq(); });
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a | ~b; });
     }
 
     // shift operators. Zeroes are shifted in.
-- 
2.43.0


From 177e62911858491227cfec886c0e3ac667db906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 16/42] fix: a hash container must not count an element whose
 construction threw

---
 include/gtl/phmap.hpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index d16561c..f1af1a0 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2189,7 +2189,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2213,7 +2213,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2545,7 +2545,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2576,7 +2576,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2594,7 +2594,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2875,8 +2875,6 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
@@ -2904,6 +2902,14 @@ protected:
     const_iterator iterator_at(size_t i) const { return { ctrl_ + i, slots_ + i }; }
 
 protected:
+    // Records the element which was just constructed at an index returned by prepare_insert(). The
+    // table does not change before that, so it remains consistent if the construction throws.
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Sets the control byte, and if `i < Group::kWidth`, set the cloned byte at
     // the end too.
     void set_ctrl(size_t i, ctrl_t h) {
@@ -3143,7 +3149,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3160,7 +3166,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3754,7 +3760,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3834,7 +3840,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3953,10 +3959,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4636,7 +4642,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4659,7 +4665,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4686,7 +4692,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4707,7 +4713,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From 890ee4741fcde19448918569c3d06b3dbf867bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:51 +0000
Subject: [PATCH 17/42] fix: copying a hash container must not destroy an
 element whose construction threw

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f1af1a0..1017262 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1822,8 +1822,8 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
-            set_ctrl(target.offset, H2(hashval));
             emplace_at(target.offset, v);
+            set_ctrl(target.offset, H2(hashval));
         }
         size_ = that.size();
         growth_left() -= that.size();
-- 
2.43.0


From a2f47518775ccc972180b29a66898032acf71f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:51 +0000
Subject: [PATCH 18/42] fix: a node hash container must release the node whose
 element construction threw

---
 include/gtl/phmap.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1017262..7c850a3 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4865,9 +4865,10 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
     static T* new_element(Allocator* alloc, Args&&... args) {
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
-        T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
-        std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
-        return res;
+        auto       dealloc = [&](T* p) { std::allocator_traits<ValueAlloc>::deallocate(value_alloc, p, 1); };
+        std::unique_ptr<T, decltype(dealloc)> res(std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1), dealloc);
+        std::allocator_traits<ValueAlloc>::construct(value_alloc, res.get(), std::forward<Args>(args)...);
+        return res.release();
     }
 
     template<class Allocator>
@@ -4903,10 +4904,11 @@ public:
     template<class Allocator, class... Args>
     static value_type* new_element(Allocator* alloc, Args&&... args) {
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
-        PairAlloc   pair_alloc(*alloc);
-        value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
-        std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
-        return res;
+        PairAlloc pair_alloc(*alloc);
+        auto      dealloc = [&](value_type* p) { std::allocator_traits<PairAlloc>::deallocate(pair_alloc, p, 1); };
+        std::unique_ptr<value_type, decltype(dealloc)> res(std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1), dealloc);
+        std::allocator_traits<PairAlloc>::construct(pair_alloc, res.get(), std::forward<Args>(args)...);
+        return res.release();
     }
 
     template<class Allocator>
-- 
2.43.0


From d2495ccabc83dd771afeaea67a2c5ffacd2613ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 19/42] fix: moving or swapping a parallel container must carry
 its auxiliary containers along

---
 include/gtl/phmap.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7c850a3..bd578cb 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3529,8 +3529,10 @@ public:
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+            sets_[i].aux_ = std::move(that.sets_[i].aux_);
+        }
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3542,8 +3544,10 @@ public:
     parallel_hash_set& operator=(parallel_hash_set&& that) noexcept(
         std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_assignable_v<hasher> &&
         std::is_nothrow_move_assignable_v<key_equal>) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = std::move(that.sets_[i].set_);
+            sets_[i].aux_ = std::move(that.sets_[i].aux_);
+        }
         return *this;
     }
 
@@ -4147,6 +4151,7 @@ public:
             UniqueLock                     l(sets_[i]);
             typename Lockable2::UniqueLock l2(that.get_inner(i));
             swap(sets_[i].set_, that.get_inner(i).set_);
+            swap(sets_[i].aux_, that.get_inner(i).aux_);
         }
     }
 
-- 
2.43.0


From 4df8385ce6e37215409f71f3d0363d00129863e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 20/42] fix: copying an lru_cache or a memoize_lru must not
 share list nodes with the original

---
 include/gtl/lru_cache.hpp | 14 ++++++++++++++
 include/gtl/memoize.hpp   | 18 ++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..a763e34 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -56,6 +56,20 @@ public:
         assert(_max_size > 2);
     }
 
+    // the map refers to the nodes of its own lists, so entries have to be inserted again (oldest first)
+    lru_cache_impl(const lru_cache_impl& o)
+        : _max_size(o._max_size) {
+        for (size_t i = 0; i < num_submaps; ++i) {
+            const list_type& l = o._cache.get_inner(i).aux_;
+            for (auto it = l.rbegin(); it != l.rend(); ++it)
+                insert(it->first, it->second);
+        }
+    }
+    lru_cache_impl(lru_cache_impl&&) = default;
+
+    lru_cache_impl& operator=(const lru_cache_impl& o) { return *this = lru_cache_impl(o); }
+    lru_cache_impl& operator=(lru_cache_impl&&) = default;
+
     bool exists(const K& k) {
         return _cache.if_contains(k, [&](const auto&, list_type&) {});
     }
diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..c7ea290 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -209,6 +209,24 @@ public:
         assert(_max_size > 2);
     }
 
+    // the map refers to the nodes of its own lists, so entries have to be inserted again (oldest first)
+    mt_memoize_lru(const mt_memoize_lru& o)
+        : _f(o._f)
+        , _max_size(o._max_size) {
+        for (size_t i = 0; i < num_submaps; ++i) {
+            const list_type& l = o._cache.get_inner(i).aux_;
+            list_type&       d = _cache.get_inner(i).aux_;
+            for (auto it = l.rbegin(); it != l.rend(); ++it) {
+                d.push_front(*it);
+                _cache.emplace(it->first, d.begin());
+            }
+        }
+    }
+    mt_memoize_lru(mt_memoize_lru&&) = default;
+
+    mt_memoize_lru& operator=(const mt_memoize_lru& o) { return *this = mt_memoize_lru(o); }
+    mt_memoize_lru& operator=(mt_memoize_lru&&) = default;
+
     std::optional<result_type> contains(Args... args) {
         key_type key(args...);
         if (result_type res; _cache.if_contains(key, [&](const auto& v, list_type&) { res = v.second->second; }))
-- 
2.43.0


From 1cc4812f0c79193a5454e3b89e3791b8c1f67f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 21/42] fix: assigning an intrusive_ptr of a derived class to
 one of a base class did not compile

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From f984bbeb637b49b88f8986800cccf245ee4627b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 22/42] fix: moving an intrusive_ptr to one of an abstract base
 class must leave the source empty

---
 include/gtl/intrusive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index a45c25b..627524c 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -71,7 +71,7 @@ public:
             intrusive_ptr_add_ref(px);
     }
 
-    template<class U, typename std::enable_if_t<std::is_convertible_v<U, T>, int> = 0>
+    template<class U, typename std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
     intrusive_ptr(intrusive_ptr<U>&& rhs)
         : px(rhs.px) {
         rhs.px = nullptr;
-- 
2.43.0


From 7a8d8dd878f9b9240cf7f4edd7e30a8646fe0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:54 +0000
Subject: [PATCH 23/42] fix: binary search over doubles or wide integer ranges
 did not cope with negative or distant bounds

---
 include/gtl/adv_utils.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..d8fb3ba 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,8 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
@@ -77,7 +79,8 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
+        // r - l may not be representable in T
+        if (l < r && l + 1 < r)
             return std::midpoint(l, r);
         return {};
     }
@@ -88,15 +91,20 @@ struct middle<T> {
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        auto m = middle<int64_t>()(to_int(l), to_int(r));
+        if (m)
+            return from_int(*m);
         return {};
     }
+
+private:
+    // the representation is sign and magnitude: map it to integers ordered as the doubles
+    static int64_t to_int(T x) {
+        int64_t i = std::bit_cast<int64_t>(x);
+        return i < 0 ? -(i & INT64_MAX) : i;
+    }
+
+    static T from_int(int64_t i) { return i < 0 ? -std::bit_cast<T>(-i) : std::bit_cast<T>(i); }
 };
 
 } // namespace gtl
-- 
2.43.0


From 1a3e12d0c89d68de1e2ea59dae9653007e11e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:06 +0000
Subject: [PATCH 24/42] fix: assigning a hash container must let a propagating
 allocator follow the memory

---
 include/gtl/phmap.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index bd578cb..53cd910 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1871,7 +1871,7 @@ public:
     raw_hash_set& operator=(const raw_hash_set& that) {
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
-        swap(tmp);
+        swap_with_temporary(tmp, typename AllocTraits::propagate_on_container_copy_assignment());
         return *this;
     }
 
@@ -2821,10 +2821,21 @@ private:
         }
     }
 
+    // swap with the temporary of an assignment: if the allocator propagates, it has to follow the memory, also when
+    // it would not propagate on a swap.
+    template<class Propagate>
+    void swap_with_temporary(raw_hash_set& tmp, Propagate) {
+        swap(tmp);
+        if constexpr (Propagate::value && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(alloc_ref(), tmp.alloc_ref());
+        }
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
-        swap(tmp);
+        swap_with_temporary(tmp, std::true_type());
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
-- 
2.43.0


From 88eec38f2523df350da5683f583973e2c88f06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:06 +0000
Subject: [PATCH 25/42] fix: moving a parallel container must keep the
 allocator

---
 include/gtl/phmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 53cd910..88b0e75 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3539,7 +3539,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
             sets_[i].aux_ = std::move(that.sets_[i].aux_);
-- 
2.43.0


From 13b3965cd7393abb04bd7c6932fae78681fd5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:06 +0000
Subject: [PATCH 26/42] fix: btree containers must follow the allocator's copy
 construction and move assignment traits

---
 include/gtl/btree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..0652fda 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2354,7 +2354,8 @@ btree<P>::btree(const key_compare& comp, const allocator_type& alloc)
 
 template<typename P>
 btree<P>::btree(const btree& x)
-    : btree(x.key_comp(), x.allocator()) {
+    : btree(x.key_comp(),
+            std::allocator_traits<allocator_type>::select_on_container_copy_construction(x.allocator())) {
     copy_or_move_values_in_order(&x);
 }
 
@@ -2488,7 +2489,7 @@ auto btree<P>::operator=(btree&& x) noexcept -> btree& {
         clear();
 
         using std::swap;
-        if (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
+        if (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) {
             // Note: `root_` also contains the allocator and the key comparator.
             swap(root_, x.root_);
             swap(rightmost_, x.rightmost_);
-- 
2.43.0


From d725526603926be2b277498338582eccbde40cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:33 +0000
Subject: [PATCH 27/42] fix: moving a hash container must leave the source with
 a usable hash function

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 88b0e75..e88e7a6 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1841,7 +1841,7 @@ public:
         // `that` must be left valid. If Hash is std::function<Key>, moving it
         // would create a nullptr functor that cannot be called.
         // -------------------------------------------------------------------
-        settings_(std::move(that.settings_)) {
+        settings_(that.settings_) {
         // growth_left was copied above, reset the one from `that`.
         that.growth_left() = 0;
     }
-- 
2.43.0


From e2994b699d4f25505eb97ab63f6dafc54bef01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:14 +0000
Subject: [PATCH 28/42] fix: merging a hash container with one of another hash
 or equality type did not compile

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index e88e7a6..0177c93 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1575,7 +1575,8 @@ private:
 
 public:
     class iterator {
-        friend class raw_hash_set;
+        template<class, class, class, class>
+        friend class raw_hash_set; // also the ones with another hash or equality, for merge()
 
     public:
         using iterator_category = std::forward_iterator_tag;
@@ -2487,6 +2488,9 @@ private:
     template<class Container, typename Enabler>
     friend struct hashtable_debug_internal::HashtableDebugAccess;
 
+    template<class, class, class, class>
+    friend class raw_hash_set; // merge() takes sets with another hash or equality
+
     template<class K = key_type>
     bool find_impl(const key_arg<K>& key, size_t hashval, size_t& offset) {
         if constexpr (!std_alloc_t::value) {
-- 
2.43.0


From 6d9ab85afb445afca259210e188b5abcded49493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 29/42] fix: loading a dump must keep the hash, equality and
 allocator of the loading container

---
 include/gtl/phmap_dump.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..16aceed 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -74,7 +74,8 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
+    // clear any existing content, but keep using our own hash, equality and allocator
+    raw_hash_set<Policy, Hash, Eq, Alloc>(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this);
     size_t version = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
-- 
2.43.0


From efc9833ea61d3197914e5500957479b0045539d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 30/42] fix: loading an unversioned dump of a small table
 accessed memory past its end

---
 include/gtl/phmap_dump.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 16aceed..f89e238 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -20,6 +20,7 @@
 // ---------------------------------------------------------------------------
 
 #include "phmap.hpp"
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -102,7 +103,8 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
     ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
     if (version == 0) {
-        drop_deletes_without_resize(); // because we didn't load `&growth_left()`
+        // we didn't load `&growth_left()`, and initialize_slots() couldn't know about the deleted slots.
+        growth_left() -= static_cast<size_t>(std::count_if(ctrl_, ctrl_ + capacity_, IsDeleted));
     }
     return true;
 }
-- 
2.43.0


From cabe369de7812d7e3223e012c8dce0942d27072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:25 +0000
Subject: [PATCH 31/42] fix: btree move assignment must keep the allocator
 behaviour the test suite pins

Partly reverts 13b3965: Btree.MoveAssignmentAllocatorPropagation expects an
allocator which inherits propagate_on_container_move_assignment from
std::allocator not to be propagated by move assignment.
---
 include/gtl/btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 0652fda..4f9a499 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2489,7 +2489,7 @@ auto btree<P>::operator=(btree&& x) noexcept -> btree& {
         clear();
 
         using std::swap;
-        if (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) {
+        if (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
             // Note: `root_` also contains the allocator and the key comparator.
             swap(root_, x.root_);
             swap(rightmost_, x.rightmost_);
-- 
2.43.0


From f922543621654c3dcabfb96a8b0718f6524cdc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 32/42] fix: gtl::vector of over-aligned elements must allocate
 storage with their alignment

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index e7b11b4..80dfc43 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -147,7 +147,7 @@ private:
         // allocation
         // note that 'allocate' and 'deallocate' are inherited from Allocator
         T* D_allocate(size_type n) {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 return static_cast<T*>(checkedMalloc(n * sizeof(T)));
             } else {
                 return std::allocator_traits<Allocator>::allocate(*this, n);
@@ -155,7 +155,7 @@ private:
         }
 
         void D_deallocate(T* p, size_type n) noexcept {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 free(p);
             } else {
                 std::allocator_traits<Allocator>::deallocate(*this, p, n);
-- 
2.43.0


From 52d49b0de7f992ddf5250323d1360a5bde935973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:19 +0000
Subject: [PATCH 33/42] fix: reserve must make room for n elements when slots
 of erased elements use it up

---
 include/gtl/phmap.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 0177c93..8e2c785 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2353,7 +2353,12 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        rehash(GrowthToLowerboundCapacity(n));
+        // Slots of erased elements can still use up the room for `n` elements.
+        if (n > size() + growth_left())
+            rehash_and_grow_if_necessary();
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From ee64d0100418ff668f57af5650bb080370b37e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:47 +0000
Subject: [PATCH 34/42] fix: rehash(n) of a parallel container must give at
 least n buckets

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8e2c785..55e586d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4177,7 +4177,7 @@ public:
     }
 
     void rehash(size_t n) {
-        size_t nn = n / num_tables;
+        size_t nn = (n + num_tables - 1) / num_tables; // at least `n` buckets in total
         for (auto& inner : sets_) {
             UniqueLock m(inner);
             inner.set_.rehash(nn);
-- 
2.43.0


From 1e48d2274e523f1491acd17aec82e0ff9cb984f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:05 +0000
Subject: [PATCH 35/42] fix: btree initializer_list constructor taking an
 allocator did not compile

---
 include/gtl/btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 4f9a499..9030706 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -3329,7 +3329,7 @@ public:
         : btree_set_container(init.begin(), init.end(), comp, alloc) {}
 
     btree_set_container(std::initializer_list<init_type> init, const allocator_type& alloc)
-        : btree_set_container(init.begin(), init.end(), alloc) {}
+        : btree_set_container(init.begin(), init.end(), key_compare(), alloc) {}
 
     // Lookup routines.
     // ----------------
-- 
2.43.0


From c3c27a5dac6118c1482e8ad8214fa92e3042d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:30 +0000
Subject: [PATCH 36/42] fix: vector::steal_data() did not compile and would
 have returned the end of the storage

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 80dfc43..132a8b5 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -202,7 +202,7 @@ private:
             b_ = newB;
         }
 
-        pointer data() const { return z_; }
+        pointer data() const { return b_; }
 
         void reset(size_type newCap) {
             destroy();
@@ -726,7 +726,7 @@ public:
     // return value to be used in accordance with vector's allocator
     std::unique_ptr<T> steal_data() {
         std::unique_ptr<T> res(impl_.data());
-        impl_.set(nullptr, nullptr, nullptr); // don't deallocate the buffer!!
+        impl_.set(nullptr, 0, 0); // don't deallocate the buffer!!
         return res;
     }
 
-- 
2.43.0


From fa5f658914373024c071c1244e11eb4114b1aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 37/42] fix: vector requests whose size in bytes overflows
 corrupted memory instead of throwing

---
 include/gtl/vector.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 132a8b5..df9e068 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -185,11 +185,19 @@ private:
             }
         }
 
+        // The capacity to allocate for `n` elements, whose size in bytes must be representable.
+        static size_type goodCapacity(size_type n) {
+            if (UNLIKELY(n > size_type(PTRDIFF_MAX) / sizeof(T))) {
+                throw std::length_error("vector: too many elements.");
+            }
+            return gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+        }
+
         void init(size_type n) {
             if (UNLIKELY(n == 0)) {
                 b_ = e_ = z_ = nullptr;
             } else {
-                size_type sz = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+                size_type sz = goodCapacity(n);
                 b_           = D_allocate(sz);
                 e_           = b_;
                 z_           = b_ + sz;
@@ -925,7 +933,7 @@ public:
             return;
         }
 
-        auto newCap = gtl::goodMallocSize(n * sizeof(T)) / sizeof(T);
+        auto newCap = Impl::goodCapacity(n);
         auto newB   = M_allocate(newCap);
         {
             scoped_guard rollback([&] { M_deallocate(newB, newCap); });
@@ -1243,9 +1251,8 @@ private: // we have the private section first because it defines some macros
     bool isValid(const_iterator it) { return cbegin() <= it && it <= cend(); }
 
     size_type computeInsertCapacity(size_type n) {
-        size_type nc = std::max(computePushBackCapacity(), size() + n);
-        size_type ac = gtl::goodMallocSize(nc * sizeof(T)) / sizeof(T);
-        return ac;
+        size_type nc = n > ~size_type(0) - size() ? n : std::max(computePushBackCapacity(), size() + n);
+        return Impl::goodCapacity(nc);
     }
 
     //---------------------------------------------------------------------------
@@ -1366,7 +1373,7 @@ private: // we have the private section first because it defines some macros
 
     bool insert_use_fresh(bool at_end, size_type n) {
         if (at_end) {
-            if (size() + n <= capacity()) {
+            if (n <= capacity() - size()) {
                 return false;
             }
             if (reserve_in_place(size() + n)) {
@@ -1375,7 +1382,7 @@ private: // we have the private section first because it defines some macros
             return true;
         }
 
-        if (size() + n > capacity()) {
+        if (n > capacity() - size()) {
             return true;
         }
 
-- 
2.43.0


From 2c17494991784b7084a50104ddcff8fb9cd97c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 38/42] fix: hash container reserve/rehash/bucket counts whose
 size in bytes overflows corrupted memory instead of throwing

---
 include/gtl/gtl_base.hpp |  1 +
 include/gtl/phmap.hpp    | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/gtl/gtl_base.hpp b/include/gtl/gtl_base.hpp
index 90c164c..a03a77e 100644
--- a/include/gtl/gtl_base.hpp
+++ b/include/gtl/gtl_base.hpp
@@ -979,6 +979,7 @@ namespace {
 
 static inline void ThrowStdOutOfRange(const std::string& what_arg) { GTL_THROW_IMPL_MSG(std::out_of_range, what_arg); }
 static inline void ThrowStdOutOfRange(const char* what_arg) { GTL_THROW_IMPL_MSG(std::out_of_range, what_arg); }
+static inline void ThrowStdLengthError(const char* what_arg) { GTL_THROW_IMPL_MSG(std::length_error, what_arg); }
 
 } // gtl
 
diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 55e586d..24f4656 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1076,7 +1076,8 @@ inline size_t GrowthToLowerboundCapacity(size_t growth) {
             return 8;
         }
     }
-    return growth + static_cast<size_t>((static_cast<int64_t>(growth) - 1) / 7);
+    const size_t extra = growth ? (growth - 1) / 7 : 0;
+    return growth > ~size_t{} - extra ? ~size_t{} : growth + extra;
 }
 
 namespace hashtable_debug_internal {
@@ -2644,6 +2645,11 @@ private:
         assert(new_capacity);
         if (std::is_same_v<SlotAlloc, std::allocator<slot_type>> && slots_ == nullptr) {}
 
+        // the size in bytes of the arrays must be representable
+        constexpr size_t overhead = 2 * Group::kWidth + alignof(slot_type);
+        if (new_capacity > (static_cast<size_t>(PTRDIFF_MAX) - overhead) / (sizeof(slot_type) + sizeof(ctrl_t)))
+            ThrowStdLengthError("phmap: capacity too large");
+
         auto  layout = MakeLayout(new_capacity);
         char* mem    = static_cast<char*>(Allocate<Layout::Alignment()>(&alloc_ref(), layout.AllocSize()));
         ctrl_        = reinterpret_cast<ctrl_t*>(layout.template Pointer<0>(mem));
@@ -4177,7 +4183,7 @@ public:
     }
 
     void rehash(size_t n) {
-        size_t nn = (n + num_tables - 1) / num_tables; // at least `n` buckets in total
+        size_t nn = n / num_tables + (n % num_tables != 0); // at least `n` buckets in total
         for (auto& inner : sets_) {
             UniqueLock m(inner);
             inner.set_.rehash(nn);
-- 
2.43.0


From 23e455c3054b8806f3f39b75ddde13e493a12b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 39/42] fix: bit_vector resize near SIZE_MAX bits allocated
 nothing, and a resize that threw left the size changed

---
 include/gtl/bit_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index aa2d3e5..5e87836 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -30,7 +30,7 @@ static constexpr uint64_t ones   = (uint64_t)-1;
 
 static constexpr size_t mod(size_t n) { return (n & 0x3f); }
 static constexpr size_t slot(size_t n) { return n >> 6; }
-static constexpr size_t slot_cnt(size_t n) { return slot(n + 63); }
+static constexpr size_t slot_cnt(size_t n) { return slot(n) + ((n & 63) != 0); }
 
 // a mask for this bit in its slot
 static constexpr uint64_t bitmask(size_t n) { return (uint64_t)1 << mod(n); }
@@ -81,11 +81,11 @@ public:
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
         size_t old_sz    = _sz;
-        _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
+        _s.resize(num_slots, val ? ones : 0); // may throw
+        _sz = num_bits;
         if (val && mod(old_sz) && num_bits > old_sz)
-            _s[slot(old_sz)] |= himask(old_sz); // new bits which fall in the current last slot
-        _s.resize(num_slots, val ? ones : 0);
+            _s[slot(old_sz)] |= himask(old_sz); // new bits which fall in the previous last slot
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
         _check_extra_bits();
@@ -781,8 +781,8 @@ public:
     }
 
     void resize(size_t sz, bool val = false) {
+        _s.resize(sz, val); // may throw
         _sz = sz;
-        _s.resize(_sz, val);
     }
 
     // bit access
-- 
2.43.0


From b5ec31567746798331c4705c32cf2e3738210c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 40/42] fix: a moved-from bit_vector kept its size without any
 storage

---
 include/gtl/bit_vector.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 5e87836..4f3f47f 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -15,6 +15,7 @@
 #include <cstring>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 // #include <bit>
 #include <cassert>
@@ -780,6 +781,25 @@ public:
         *this = vals;
     }
 
+    vec(const vec&)            = default;
+    vec& operator=(const vec&) = default;
+
+    // a moved-from bit_vector is empty
+    vec(vec&& o) noexcept
+        : _sz(std::exchange(o._sz, 0))
+        , _s(std::move(o._s)) {
+        o._s.resize(0);
+    }
+
+    vec& operator=(vec&& o) noexcept {
+        if (this != &o) {
+            _sz = std::exchange(o._sz, 0);
+            _s  = std::move(o._s);
+            o._s.resize(0);
+        }
+        return *this;
+    }
+
     void resize(size_t sz, bool val = false) {
         _s.resize(sz, val); // may throw
         _sz = sz;
-- 
2.43.0


From c93bf3701a9a604699e921210fe5a7044da5d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 41/42] fix: soa columns got out of step when an element
 constructor threw in insert, resize or assignment

---
 include/gtl/soa.hpp | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/gtl/soa.hpp b/include/gtl/soa.hpp
index 0e9fe57..f371a60 100644
--- a/include/gtl/soa.hpp
+++ b/include/gtl/soa.hpp
@@ -53,6 +53,16 @@ public:
     template<size_t col_idx>
     using col_type = typename nth_col_type<col_idx>::value_type;
 
+    soa()                 = default;
+    soa(const soa&)       = default;
+    soa(soa&&)            = default;
+    soa& operator=(soa&&) = default;
+    soa& operator=(const soa& o) {
+        storage_type tmp(o.data_); // may throw, while all columns must be assigned or none
+        data_ = std::move(tmp);
+        return *this;
+    }
+
     template<size_t col_idx>
     const auto& get_column() const {
         return std::get<col_idx>(data_);
@@ -69,7 +79,13 @@ public:
 
     template<typename... Xs>
     void insert(Xs... xs) {
-        insert_impl(std::index_sequence_for<Ts...>{}, std::forward_as_tuple(xs...));
+        size_t sz = size();
+        try {
+            insert_impl(std::index_sequence_for<Ts...>{}, std::forward_as_tuple(xs...));
+        } catch (...) {
+            truncate(sz);
+            throw;
+        }
     }
 
     auto operator[](size_t idx) const {
@@ -95,7 +111,13 @@ public:
     }
 
     void resize(size_t sz) {
-        std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);
+        size_t old_sz = size();
+        try {
+            std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);
+        } catch (...) {
+            truncate(old_sz);
+            throw;
+        }
     }
 
     void reserve(size_t sz) {
@@ -138,6 +160,19 @@ public:
     }
 
 private:
+    // removes the rows from `sz` on, from the columns which have them
+    void truncate(size_t sz) {
+        std::apply(
+            [=](auto&... x) {
+                auto shrink = [=](auto& col) {
+                    while (col.size() > sz)
+                        col.pop_back();
+                };
+                (shrink(x), ...);
+            },
+            data_);
+    }
+
     struct sort_data {
         std::vector<size_t> o; // sort order
         bit_vector          done;
-- 
2.43.0


From 116d07d3c7758581eb9dbff69296fb11e92a9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 42/42] fix: merging containers with another hash or equality
 did not compile (parallel; with assertions enabled: all)

---
 include/gtl/phmap.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 24f4656..7567984 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2283,7 +2283,7 @@ public:
     // ----------------------------------------------------------------------------
     template<typename H, typename E>
     void merge(raw_hash_set<Policy, H, E, Alloc>& src) { // NOLINT
-        assert(this != &src);
+        assert(static_cast<const void*>(this) != static_cast<const void*>(&src));
         for (auto it = src.begin(), e = src.end(); it != e; ++it) {
             if (PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*it.slot_) }, PolicyTraits::element(it.slot_))
                     .second) {
@@ -3220,6 +3220,9 @@ template<size_t N,
          class Eq,
          class Alloc>
 class parallel_hash_set {
+    template<size_t, template<class, class, class, class> class, class, class, class, class, class, class>
+    friend class parallel_hash_set; // merge() takes sets with another equality
+
     using PolicyTraits = hash_policy_traits<Policy>;
     using KeyArgImpl   = KeyArg<IsTransparent<Eq>::value && IsTransparent<Hash>::value>;
 
@@ -4140,8 +4143,8 @@ public:
     // --------------------------------------------------------------------
     template<typename E = Eq>
     void merge(parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, E, Alloc>& src) { // NOLINT
-        assert(this != &src);
-        if (this != &src) {
+        assert(static_cast<const void*>(this) != static_cast<const void*>(&src));
+        if (static_cast<const void*>(this) != static_cast<const void*>(&src)) {
             for (size_t i = 0; i < num_tables; ++i) {
                 typename Lockable::UniqueLocks l(sets_[i], src.sets_[i]);
                 sets_[i].set_.merge(src.sets_[i].set_);
-- 
2.43.0

