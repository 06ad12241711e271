From 0a4ba0aec9fb802ea8e6ed34c0c408bddd91a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 001/209] fix: a vector moved-from by assignment is left empty,
 with zero dimensions

---
 include/vif/core/vec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..4584e94 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,12 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                v.clear();
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 66b911fd32569dce20ec7a7d9845301dec610d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 002/209] fix: error message of operator() read past the end of
 the dimension array

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f0b2ffb 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 2e0876c1b3394653e9f1e624633468de5ea2072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 003/209] fix: negative index of a narrow integer type was
 truncated

---
 include/vif/core/bits/access.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f0b2ffb..78f7ab7 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -290,8 +290,9 @@ namespace vec_access {
     template<typename T>
     uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
         vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
-        while (i < 0) i += size;
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += size;
+        uint_t ui(si);
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
         return ui;
     }
@@ -305,8 +306,9 @@ namespace vec_access {
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
         vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
-        while (i < 0) i += dims[I];
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += dims[I];
+        uint_t ui(si);
         vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
-- 
2.43.0


From ef7c6342266c659409e36ac22915d6f10c5c975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 004/209] fix: 'v += v[0]' and similar used the modified
 element

---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 4584e94..855b635 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -593,7 +593,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 46411e85045d02e544e3f74ba2aae8d4dbc5694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 005/209] fix: aliasing through a view of a const vector was
 not detected

---
 include/vif/core/vec.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 855b635..448993f 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -200,6 +200,11 @@ namespace vif {
             return v.view_same(*this);
         }
 
+        template<std::size_t D>
+        bool view_same(const vec<D,const Type*>& v) const {
+            return v.view_same(*this);
+        }
+
         bool empty() const {
             return data.empty();
         }
@@ -806,13 +811,18 @@ namespace vif {
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        bool view_same(const vec<D,rtype*>& v) const {
+            return v.parent == parent;
+        }
+
+        template<std::size_t D>
+        bool view_same(const vec<D,const rtype*>& v) const {
             return v.parent == parent;
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
+        bool view_same(const vec<D,rtype>& v) const {
+            return static_cast<void*>(const_cast<vec<D,rtype>*>(&v)) == parent;
         }
 
         bool empty() const {
-- 
2.43.0


From 6c9a5c44e186edd88ffe5d58ecc6ff3102079870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 006/209] fix: aliasing through a range view of a view was not
 detected

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 78f7ab7..a9b2b31 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -645,7 +645,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From 3a869fa075271f756e59117e5cff8cbd3e06cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 007/209] fix: negative indices in an index vector were
 rejected by operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index a9b2b31..c30db6b 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -424,7 +424,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -459,7 +459,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -544,7 +544,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From 98051026b4389eafa2021daf816d165cd8bd895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 008/209] fix: match() missed repeated values and matched NaN
 in vectors of 64 elements or more

---
 include/vif/utility/bits/generic-find.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..1fccee6 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -234,10 +234,14 @@ namespace vif {
                     ++i1;
                 } else if (tv1 > tv2) {
                     ++i2;
-                } else {
+                } else if (tv1 == tv2) {
+                    // Keep 'i2' where it is, the next value of 'v1' may be identical
                     id1.data.push_back(ids1.safe[i1]);
                     id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+                    ++i1;
+                } else {
+                    // Reached NaN values, which are sorted last and never match
+                    break;
                 }
             }
 
-- 
2.43.0


From 6594c0d92450023c6f5b2f21c37d9a9c2541732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 009/209] fix: is_sorted() read out of bounds on empty vectors,
 and rejected repeated values

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..d83ac18 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -108,8 +108,8 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
-        for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+        for (uint_t i = 1; i < v.size(); ++i) {
+            if (typename vec<Dim,Type>::comparator_less()(v.safe[i], v.safe[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From 2aa0915093dff0a9d2f801d6057f56f82289aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 010/209] fix: shift() of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index d83ac18..d065add 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
-- 
2.43.0


From 73646c0abef67831fdb4c1f7a9021338a5f362d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 011/209] fix: replicate() of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index d065add..5245009 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -56,7 +56,7 @@ namespace vif {
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
         std::size_t pitch = t.size();
-        std::size_t n = v.size()/pitch;
+        std::size_t n = (pitch == 0 ? 0 : v.size()/pitch);
         for (uint_t i : range(n))
         for (uint_t j : range(pitch)) {
             v.safe[i*pitch + j] = t.safe[j];
-- 
2.43.0


From 257b9dfd9b67c36249a042a69738b2a7b0b510ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 012/209] fix: remove() did not reject all invalid and repeated
 indices

---
 include/vif/utility/bits/generic-rearrange.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 5245009..e657b45 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -124,7 +124,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
@@ -134,9 +134,10 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
+                vif_check(ids.safe[ids.size()-1-i] != i0, "remove indices contain duplicates");
+
                 i0 = ids.safe[ids.size()-1-i];
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
                 vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
                     "dimensions ", v.dims);
 
-- 
2.43.0


From c36a5d381ea79bad84b2658d3626a062955950c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 013/209] fix: append() and prepend() did not check each of the
 other dimensions

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index e657b45..a1cbf20 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -168,8 +168,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (", t1.dims,
+                ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
@@ -191,8 +193,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (", t1.dims,
+                ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From 5bfa92b5e2abbddefd6c7bd3981a6e69761473de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 014/209] fix: append() and prepend() of a vector to itself
 used invalidated iterators

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1cbf20..b28201c 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -210,6 +210,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void append(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (t2.view_same(t1) || static_cast<const void*>(&t1) == static_cast<const void*>(&t2)) {
+            // Aliasing, need a copy
+            append(t1, vec<1,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         t1.data.insert(t1.data.end(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
@@ -217,6 +223,12 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void prepend(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (t2.view_same(t1) || static_cast<const void*>(&t1) == static_cast<const void*>(&t2)) {
+            // Aliasing, need a copy
+            prepend(t1, vec<1,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
-- 
2.43.0


From 88a53d0bceaad359373c321bd5f67f2ba03b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 015/209] fix: parallel_for did not stay within the requested
 range

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..7a30151 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, iend, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 2bbbaa2ebc8b363dec4b74bb486984fdf572eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 016/209] fix: worker_pool::start() hanged if the pool was
 already started

---
 include/vif/utility/bits/thread-worker-pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..bc2ba74 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -100,6 +100,7 @@ namespace thread {
 
         template<typename F, typename ... Args>
         void start(uint_t nthread, const F& f, const Args&... args) {
+            join();
             workers.clear();
             workers.reserve(nthread);
             for (uint_t i = 0; i < nthread; ++i) {
-- 
2.43.0


From e4c63c1156c3c2a568fcacc9a706071e162d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 017/209] fix: regex_extract() and regex_replace() never
 returned on empty matches, and failed on unmatched groups

---
 include/vif/utility/bits/string-regex.hpp | 32 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..9fd23c3 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -94,7 +94,10 @@ namespace vif {
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
         uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
-        if (nmatch == 0) return ret;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -114,9 +117,17 @@ namespace vif {
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match, move on to the next character
+                if (offset >= ts.size()) break;
+                ++offset;
+            }
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
+        regfree(&re);
+
         return ret;
     }
 
@@ -139,15 +150,28 @@ namespace vif {
             vec1s ext;
             ext.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
-                ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                if (m[i+1].rm_eo > m[i+1].rm_so) {
+                    ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                } else {
+                    ext.push_back("");
+                }
             }
 
             s += func(std::move(ext));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match, move on to the next character
+                if (offset >= ts.size()) break;
+                s += ts[offset];
+                ++offset;
+            }
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
+        regfree(&re);
+
         s += ts.substr(offset);
 
         return s;
-- 
2.43.0


From 2cb99472391f9c114fe6325ebef817369a0e58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 018/209] fix: replace_blocks() looked for separators past the
 end of a block

---
 include/vif/utility/bits/string-find-replace.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..4e6709d 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -177,8 +177,11 @@ namespace vif {
 
             vec1s b;
 
+            uint_t pe = os.find(end, p);
+            vif_check(pe != npos, "ill formed "+begin+"..."+end+" command");
+
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 + sep.size() <= pe) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
@@ -186,13 +189,10 @@ namespace vif {
                 p0 = os.find(sep, p);
             }
 
-            p0 = os.find(end, p);
-            vif_check(p0 != npos, "ill formed "+begin+"..."+end+" command");
-
-            b.push_back(os.substr(p, p0-p));
+            b.push_back(os.substr(p, pe-p));
             s += convert(std::move(b));
 
-            p0 += end.size();
+            p0 = pe + end.size();
 
             p = os.find(begin, p0);
         }
-- 
2.43.0


From 6b75e318fe1af36ca103bc2ce5c9f71a1e0f11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 019/209] fix: cut() dropped the last line when it is shorter

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..37b5581 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,7 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        uint_t ncut = (ts.size() + size - 1)/size;
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From 4e9279631b51ec3b903f29c260b2bab307e43770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 020/209] fix: v(i) on a const vector of booleans returned a
 dangling reference

---
 include/vif/core/bits/access.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index c30db6b..e0b2307 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -564,7 +564,7 @@ namespace vec_access {
         using itype = typename std::conditional<IsConst,
             const vec<Dim,Type>, vec<Dim,Type>>::type;
         using type = typename std::conditional<IsConst,
-            const meta::dtype_t<rptype>&, meta::dtype_t<rptype>&>::type;
+            const rptype&, rptype&>::type;
 
         // Adapter to switch between safe/unsafe array indexing
         template<std::size_t D, typename T>
@@ -618,7 +618,7 @@ namespace vec_access {
         using itype = typename std::conditional<IsConst,
             const vec<1,Type>, vec<1,Type>>::type;
         using type = typename std::conditional<IsConst,
-            const meta::dtype_t<rptype>&, meta::dtype_t<rptype>&>::type;
+            const rptype&, rptype&>::type;
 
         // Adapter to switch between safe/unsafe array indexing
         static uint_t to_idx_(itype& v, const T& t, std::true_type) {
-- 
2.43.0


From 1f141895f79b4f453b303edf540eb7dbc7ad9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:21 +0000
Subject: [PATCH 021/209] fix: invalid ranges were checked after allocating the
 result, and reversed ranges could be accepted

---
 include/vif/core/bits/access.hpp | 3 +++
 include/vif/core/range.hpp       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index e0b2307..2a6eece 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -354,6 +354,7 @@ namespace vec_access {
 
         template<std::size_t IT, std::size_t IV, typename T>
         static void do_resize_impl_(type& t, itype& v, meta::cte_t<IT>, meta::cte_t<IV>, const T& rng, std::true_type) {
+            impl::range_impl::check_bounds(rng, v.dims[IV]);
             t.dims[IT] = impl::range_impl::range_size(rng, v.dims[IV]);
         }
 
@@ -525,6 +526,7 @@ namespace vec_access {
         template<typename T, typename enable = typename std::enable_if<meta::is_range<T>::value>::type>
         static type access(itype& v, const T& rng) {
             type t(impl::vec_ref_tag, get_parent(v));
+            impl::range_impl::check_bounds(rng, v.dims[0]);
             t.dims[0] = impl::range_impl::range_size(rng, v.dims[0]);
             t.resize();
 
@@ -646,6 +648,7 @@ namespace vec_access {
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
         vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
+        impl::range_impl::check_bounds(rng, parent.size());
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index f354349..7efaa2b 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -154,6 +154,8 @@ namespace impl {
         inline void check_bounds(const left_right_range_t& rng, uint_t size) {
             check_upper_bounds(rng, size);
             check_lower_bounds(rng, size);
+            vif_check(rng.first <= rng.last+1, "lower bound of range goes past the "
+                "upper bound (", rng.first, " vs. ", rng.last, ")");
         }
 
         inline uint_t range_size(full_range_t, uint_t size) {
-- 
2.43.0


From 9a303238f15b0dc48e30523d28781e17c10f1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:46 +0000
Subject: [PATCH 022/209] fix: complement() returned nothing when repeated
 indices add up to the vector's size

---
 include/vif/utility/bits/generic-find.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 1fccee6..ed02f43 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -55,8 +55,7 @@ namespace vif {
     // provided set.
     template<std::size_t Dim, typename Type>
     vec1u complement(const vec<Dim,Type>& v, const vec1u& ids) {
-        if (ids.size() == v.size()) return vec1u();
-        vif_check(ids.size() < v.size(), "incompatible size of ids (", ids.size(),
+        vif_check(ids.size() <= v.size(), "incompatible size of ids (", ids.size(),
             " vs. ", v.size(), ")");
 
         vec1b sel(v.size());
-- 
2.43.0


From 5ce19d9734e01c4aab4b0787bb2446f2cb118245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:46 +0000
Subject: [PATCH 023/209] fix: equal_range() did not return the last index, nor
 npos for missing values

---
 include/vif/utility/bits/generic-find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index ed02f43..6cf5fa2 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -424,9 +424,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From 73dcb90d3dde7629245f60f1644301ff00afdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:51 +0000
Subject: [PATCH 024/209] fix: regex_extract() and regex_replace() miscounted
 the groups of expressions with '[(]' or '\\\\('

---
 include/vif/utility/bits/string-regex.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 9fd23c3..e5b6c62 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -36,20 +36,6 @@ namespace vif {
         inline bool regex_match_(const std::string& ts, regex_t& re) {
             return regexec(&re, ts.c_str(), std::size_t(0), nullptr, 0) == 0;
         }
-
-        inline uint_t regex_find_nmatch_(const std::string& regex) {
-            uint_t nmatch = 0;
-            uint_t p = regex.find_first_of('(');
-            while (p != npos) {
-                if (p == 0 || regex[p-1] != '\\') {
-                    ++nmatch;
-                }
-
-                p = regex.find_first_of('(', p+1);
-            }
-
-            return nmatch;
-        }
     }
     }
 
@@ -93,7 +79,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
         if (nmatch == 0) {
             regfree(&re);
             return ret;
@@ -138,7 +124,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
-- 
2.43.0


From 906ca0a43c201f081053fa611a80a3adc32f5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:08 +0000
Subject: [PATCH 025/209] fix: hash() returned the same value for floating
 point values that differ after six digits

---
 include/vif/utility/bits/string-hash.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-hash.hpp b/include/vif/utility/bits/string-hash.hpp
index 7f50758..6675dc5 100644
--- a/include/vif/utility/bits/string-hash.hpp
+++ b/include/vif/utility/bits/string-hash.hpp
@@ -158,7 +158,10 @@ namespace vif {
 
         template<typename T, typename ... Args>
         std::string hash_(std::string s, T&& t, Args&& ... args) {
-            return hash_(s+pretty_type(t)+to_string(t), std::forward<Args>(args)...);
+            // Use enough digits to tell apart any two floating point values
+            std::ostringstream ss;
+            ss << std::setprecision(std::numeric_limits<double>::max_digits10) << t;
+            return hash_(s+pretty_type(t)+ss.str(), std::forward<Args>(args)...);
         }
     }
     }
-- 
2.43.0


From a31abcbd5b531e7f003a3f94e9b90e53f7f9ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 026/209] fix: hash() of the same value differed between named,
 constant and temporary arguments

---
 include/vif/utility/bits/string-hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-hash.hpp b/include/vif/utility/bits/string-hash.hpp
index 6675dc5..1a6d0ab 100644
--- a/include/vif/utility/bits/string-hash.hpp
+++ b/include/vif/utility/bits/string-hash.hpp
@@ -161,7 +161,7 @@ namespace vif {
             // Use enough digits to tell apart any two floating point values
             std::ostringstream ss;
             ss << std::setprecision(std::numeric_limits<double>::max_digits10) << t;
-            return hash_(s+pretty_type(t)+ss.str(), std::forward<Args>(args)...);
+            return hash_(s+typeid(t).name()+ss.str(), std::forward<Args>(args)...);
         }
     }
     }
-- 
2.43.0


From fd05e54d218ce5da1c6d0864134866a9bf94ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 027/209] fix: get_word() returned nothing for the first word
 of a string without separator

---
 include/vif/utility/bits/string-find-replace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 4e6709d..7a5aa1b 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -129,8 +129,8 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
-            return str.substr(p1, p2-p1+1);
+            p2 = (p2 == str.npos ? str.size() : p2);
+            return str.substr(p1, p2-p1);
         }
     }
 
-- 
2.43.0


From 43cbc3061e12001ca61f67b9e1406895f2dd73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:39 +0000
Subject: [PATCH 028/209] fix: progress bar of an empty loop divided by zero
 (e.g., verbose parallel_for on an empty range)

---
 include/vif/utility/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index 6501886..f4993d5 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -185,7 +185,7 @@ namespace vif {
     // 'i' is the current iteration number.
     template<typename I, typename M = uint_t>
     void print_progress(progress_t& p, const I& ti, const M& mod = 1) {
-        if (p.ended) return;
+        if (p.ended || p.n == 0) return;
 
         p.i = ti;
         if (p.i >= p.n-1) {
-- 
2.43.0


From 36a743d165552deaf07891976036cb63439a51cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 029/209] fix: read_table() with single delimiters read the
 first column again if it was empty

---
 include/vif/io/ascii.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..557f24d 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -78,6 +78,7 @@ namespace impl {
         struct line_splitter_t {
             std::string line;
             uint_t pos = 0;
+            bool first = true;
 
             std::string delim = " \t";
             bool delim_single = false;
@@ -86,9 +87,10 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
+                    if (!first) {
                         pos += delim.size();
                     }
+                    first = false;
 
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
@@ -112,9 +114,10 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
+                    if (!first) {
                         pos += delim.size();
                     }
+                    first = false;
 
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
@@ -143,6 +146,7 @@ namespace impl {
 
             void reset() {
                 pos = 0;
+                first = true;
             }
         };
 
-- 
2.43.0


From 67fecc5ab33034963ca49df54db07f49364c204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 030/209] fix: read_table() allocated 2^64 rows if skip_first
 is larger than the number of lines

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 557f24d..67faeff 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -347,7 +347,7 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                n -= std::min(n, opts.skip_first);
             }
 
             // Resize all vectors
-- 
2.43.0


From 1370abdc569f3662cd37d09e52f237b89c1ec025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 031/209] fix: read_table() looped forever if the file could
 not be read (e.g., a directory)

---
 include/vif/io/ascii.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 67faeff..8daf010 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -336,9 +336,7 @@ namespace ascii {
 
             // Count number of lines
             uint_t n = 0; {
-                while (!file.eof()) {
-                    ascii::getline(file, spl.line);
-
+                while (ascii::getline(file, spl.line)) {
                     auto p = spl.line.find_first_not_of(" \t");
                     if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
                         continue;
@@ -359,9 +357,8 @@ namespace ascii {
 
             uint_t i = 0;
             uint_t to_skip = opts.skip_first;
-            while (!file.eof()) {
+            while (ascii::getline(file, spl.line)) {
                 spl.reset();
-                ascii::getline(file, spl.line);
 
                 auto p = spl.line.find_first_not_of(" \t");
                 if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
-- 
2.43.0


From a98e67440cae9b34214780a5d32fa214e0c6492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 032/209] fix: write_table() read out of bounds if the first
 columns are empty

---
 include/vif/io/ascii.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 8daf010..41e4e22 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -470,7 +470,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
+            if (r == npos) {
                 r = v.dims[0];
             }
 
@@ -636,8 +636,16 @@ namespace ascii {
         vif_check(file.out.is_open(), "could not open file "+filename+" to write data");
 
         // Compute number of rows and check that all vectors have the same size
-        uint_t r = 0, c = 0;
-        impl::ascii_impl::write_table_check_size_(r, c, args...);
+        uint_t r = npos, c = 0;
+        try {
+            impl::ascii_impl::write_table_check_size_(r, c, args...);
+        } catch (ascii::exception& e) {
+            vif_check(false, std::string(e.what())+" (writing "+filename+")");
+        }
+
+        if (r == npos) {
+            r = 0;
+        }
 
         if (!opts.header.empty()) {
             vif_check(opts.header.size() == c, "mismatch between dimensions of header and number "
-- 
2.43.0


From 5b27b9c3f3a2b59937f5930ff79d67f8063bfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 033/209] fix: write_table() read out of bounds if
 columns(n,...) does not match the vectors' dimensions

---
 include/vif/io/ascii.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 41e4e22..28152c0 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -499,7 +499,12 @@ namespace impl {
         void write_table_check_size_(uint_t& r, uint_t& c, const std::tuple<U,VArgs...>& v,
             const Args& ... args) {
 
+            uint_t c0 = c;
             write_table_check_size_tuple_(r, c, v, typename meta::gen_seq<1, sizeof...(VArgs)>::type());
+            if (c - c0 != std::get<0>(v)*sizeof...(VArgs)) {
+                throw ascii::exception("incorrect number of columns in column group "+to_string(c0)+" ("+
+                    to_string(c - c0)+" vs "+to_string(std::get<0>(v)*sizeof...(VArgs))+")");
+            }
             write_table_check_size_(r, c, args...);
         }
 
-- 
2.43.0


From 5c31b303ab34b4697cca4428b936997563d31e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 034/209] fix: file::explorer closed twice the same directory
 when reused or closed explicitly

---
 include/vif/io/filesystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..4855849 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,6 +105,7 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
+                dirfd = nullptr;
             };
         }
 
-- 
2.43.0


From c1776d8527b3e6d5827de7ece317c7d083cddb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 035/209] fix: file::get_basename('dir/') and
 file::get_directory('dir//') were incorrect

---
 include/vif/io/filesystem.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 4855849..bd18a90 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -212,14 +212,15 @@ namespace file {
         } else {
             auto lpos = path.find_last_not_of(' ');
             if (pos == lpos) {
-                if (pos == 0) {
+                lpos = path.find_last_not_of('/', pos);
+                if (lpos == path.npos) {
                     return "/";
                 } else {
-                    pos = path.find_last_of('/', pos-1);
+                    pos = path.find_last_of('/', lpos);
                     if (pos == path.npos) {
-                        return path.substr(lpos);
+                        return path.substr(0, lpos+1);
                     } else {
-                        return path.substr(pos+1, lpos-pos-1);
+                        return path.substr(pos+1, lpos-pos);
                     }
                 }
             } else {
@@ -252,10 +253,11 @@ namespace file {
         if (pos == path.npos) {
             return "./";
         } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+            pos = path.find_last_not_of('/', pos);
+            if (pos == path.npos) {
                 return "/";
             } else {
-                pos = path.find_last_of('/', pos-1);
+                pos = path.find_last_of('/', pos);
                 if (pos == path.npos) {
                     return "./";
                 } else {
-- 
2.43.0


From 9cd14de457fcc6d0707149d1708e48400ba80a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 036/209] fix: file::mkdir() returned true when a file exists
 at this location

---
 include/vif/io/filesystem.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index bd18a90..0ad0141 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -280,7 +280,9 @@ namespace file {
             bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST);
             if (!res) return false;
         }
-        return true;
+
+        struct stat st;
+        return tmp.empty() || (::stat(tmp.c_str(), &st) == 0 && S_ISDIR(st.st_mode));
     }
 
     VIF_VECTORIZE(directorize)
-- 
2.43.0


From 4f2f4d442f741fce40c0ad120dace411e1b04d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 037/209] fix: file::is_older() compared the time of last
 change of status instead of modification

---
 include/vif/io/filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 0ad0141..308f706 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -31,7 +31,7 @@ namespace file {
         struct stat st1, st2;
         if (::stat(file1.c_str(), &st1) != 0) return false;
         if (::stat(file2.c_str(), &st2) != 0) return false;
-        return std::difftime(st1.st_ctime, st2.st_ctime) < 0.0;
+        return std::difftime(st1.st_mtime, st2.st_mtime) < 0.0;
     }
 
     inline bool is_absolute_path(const std::string& path) {
-- 
2.43.0


From 25b7ab0696103a1c702dc4b5f49e63abaff022cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 038/209] fix: file::copy() returned true when the data could
 not be read or written

---
 include/vif/io/filesystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 308f706..5ae3032 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -42,10 +42,13 @@ namespace file {
     inline bool copy(const std::string& file_from, const std::string& file_to) {
         std::ifstream src(file_from, std::ios::binary);
         if (!src.is_open()) return false;
+        bool empty = src.peek() == std::ifstream::traits_type::eof();
+        if (src.bad()) return false;
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-        dst << src.rdbuf();
-        return true;
+        if (!empty) dst << src.rdbuf();
+        dst.close();
+        return !dst.fail();
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From e582b40b743dc64187c92dfaea93cb3df0a90a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 039/209] fix: read_args() did not support the documented
 '--variable=value' syntax

---
 include/vif/utility/argv.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..9d3cd21 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -52,22 +52,24 @@ namespace vif {
             return true;
         }
 
+        // Number of leading dashes in "variable", "-variable" or "--variable"
+        inline uint_t read_args_dashes_(const std::string& arg) {
+            if (arg.empty() || arg[0] != '-') return 0;
+            return arg.size() > 1 && arg[1] == '-' ? 2 : 1;
+        }
+
         template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, T& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
@@ -85,18 +87,14 @@ namespace vif {
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, vec<1,T>& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
-- 
2.43.0


From df32fcda6767043cd508d492b389234d3a636c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:26 +0000
Subject: [PATCH 040/209] fix: program_arguments::write() did not write the
 arguments after a named one

---
 include/vif/utility/argv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 9d3cd21..1fc115f 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -265,7 +265,7 @@ namespace vif {
             valid.push_back(true);
 
             if (pos != names.npos && pos != names.size()) {
-                read_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
+                write_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
             }
         }
     }
-- 
2.43.0


From c33eacca8c6e5b9826ecd6ae6233b2401f98b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 041/209] fix: read_args() modified the variable even if its
 value could not be converted

---
 include/vif/utility/argv.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 1fc115f..f9afa56 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -26,7 +26,10 @@ namespace vif {
         template<typename T,
             typename enable = typename std::enable_if<!std::is_same<T, vec<1,std::string>>::value>::type>
         bool read_args_n2T_(T& t, const std::string& s) {
-            return from_string(s, t);
+            T tmp;
+            if (!from_string(s, tmp)) return false;
+            t = tmp;
+            return true;
         }
 
         template<typename U>
-- 
2.43.0


From 74cfffcf17d6138f24d15845b6d41a11a3da99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:45 +0000
Subject: [PATCH 042/209] fix: read_args() ignored valid arguments if the text
 of an invalid one contains their name

---
 include/vif/utility/argv.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index f9afa56..785c695 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -173,10 +173,12 @@ namespace vif {
             vec1u idm = where(find(argv, tname) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], tname, t)) {
+                bool is_valid = true;
+                if (read_args_impl_(argv[i], read[i], is_valid, tname, t)) {
                     found = true;
                 }
-                if (!valid[i]) {
+                if (!is_valid) {
+                    valid[i] = false;
                     warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
                     break;
                 }
@@ -208,10 +210,12 @@ namespace vif {
             vec1u idm = where(find(argv, t.name) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], t.name, t.obj)) {
+                bool is_valid = true;
+                if (read_args_impl_(argv[i], read[i], is_valid, t.name, t.obj)) {
                     found = true;
                 }
-                if (!valid[i]) {
+                if (!is_valid) {
+                    valid[i] = false;
                     warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
                     break;
                 }
-- 
2.43.0


From f7c3c310b8ea46c06e1836114240dc68fac2fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:45 +0000
Subject: [PATCH 043/209] fix: from_string() did not accept spaces around NaN
 and infinity, unlike other numbers

---
 include/vif/core/string_conversion.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/core/string_conversion.hpp b/include/vif/core/string_conversion.hpp
index b5df57c..9b502fc 100644
--- a/include/vif/core/string_conversion.hpp
+++ b/include/vif/core/string_conversion.hpp
@@ -167,7 +167,9 @@ namespace vif {
 namespace impl {
     template<typename T>
     bool from_string_fallback(const std::string& s, T& t, std::true_type) {
-        std::string su = s;
+        std::string su;
+        auto p0 = s.find_first_not_of(" \t");
+        if (p0 != s.npos) su = s.substr(p0, s.find_last_not_of(" \t")+1-p0);
         for (auto& c : su) c = std::toupper(c);
 
         if (su == "NAN" || su == "+NAN" || su == "-NAN") {
-- 
2.43.0


From 7b91f133f6db4e532ce7207d61af823a9e04ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 044/209] fix: percentile() returned NaN for the maximum of
 vectors with some NaN

---
 include/vif/math/reduce.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..6ca0241 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,7 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
@@ -244,6 +244,11 @@ namespace vif {
 
         vec<1,meta::rtype_t<Type>> r(sizeof...(Args));
         uint_t nwrong = impl::count_nans_(v);
+        if (nwrong == v.size()) {
+            r[_] = dnan;
+            return r;
+        }
+
         impl::percentiles_(r, 0, v, nwrong, args...);
         return r;
     }
-- 
2.43.0


From fb378c4fe6468a0494e01cd7e882be65548421e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 045/209] fix: weighted_percentile() returned NaN when rounding
 errors put the total weight out of reach

---
 include/vif/math/reduce.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 6ca0241..0fc9fa5 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -185,6 +185,7 @@ namespace vif {
         vec1u ids = sort(v);
 
         double tot = 0;
+        uint_t last = 0;
         for (uint_t i : range(ids)) {
             uint_t j = ids.safe[i];
             if (!is_nan(v.safe[j]) && !is_nan(w.safe[j])) {
@@ -192,10 +193,13 @@ namespace vif {
                 if (tot >= totw*p) {
                     return v.safe[j];
                 }
+
+                last = j;
             }
         }
 
-        return dnan;
+        // Can only be reached because of rounding errors, or if p > 1
+        return v.safe[last];
     }
 
     template<std::size_t Dim, typename Type, typename TypeW, typename enable = typename std::enable_if<
-- 
2.43.0


From b737788e2ea01345b0511927bf95ed66c1dc2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 046/209] fix: minmax() did not return the same position as
 max() for repeated values

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 0fc9fa5..ca419aa 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -325,8 +325,8 @@ namespace vif {
 
             for (++i; i != v.end(); ++i) {
                 if (is_nan(*i)) continue;
-                if (*i < *res.first)          res.first = i;
-                else if (!(*i < *res.second)) res.second = i;
+                if (*i < *res.first)       res.first = i;
+                else if (*res.second < *i) res.second = i;
             }
 
             return res;
-- 
2.43.0


From 09626461a007c8c9473c607ce0912cc1a7c56348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 047/209] fix: integrate() and cumul() read out of bounds on
 empty vectors

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index ca419aa..a94e591 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -703,7 +703,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
 
@@ -879,7 +879,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
         }
-- 
2.43.0


From 28b65a965cec4aef3a8c309d18a28f68e8ae0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 048/209] fix: integrate() read out of bounds when the interval
 starts at the last tabulated value

---
 include/vif/math/reduce.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index a94e591..367bcc5 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -745,7 +745,10 @@ namespace vif {
         uint_t i0 = upper_bound(x, x0);
         uint_t i1 = lower_bound(x, x1);
 
-        if (i0 > i1) {
+        if (i0 == npos) {
+            // x0 and x1 are both equal to the last value
+            return 0;
+        } else if (i0 > i1) {
             double y0 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x0);
             double y1 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x1);
             return 0.5*(y0+y1)*(x1-x0);
@@ -819,7 +822,7 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
-                i1 = x.size()-1;
+                i0 = i1 = x.size()-1;
             } else {
                 i1 = i0-1;
                 while (i1 < x.size()-1 && x.safe[i1+1] <= x1) {
-- 
2.43.0


From 53c541dc295f6562840ded91a2d97643147ab05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 049/209] fix: integrate() of binned data within an interval
 used the wrong bin at the lower end

---
 include/vif/math/reduce.hpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 367bcc5..94d08cd 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -786,22 +786,17 @@ namespace vif {
 
         vif_check(x.safe[0] <= x0 && x.safe[x.size()-1] >= x1, "x array must cover the range [x0,x1]");
 
-        uint_t i0 = upper_bound(x(0,_), x0);
-        uint_t i1 = lower_bound(x(0,_), x1);
-
-        if (i0 > i1) {
-            return y.safe[i1]*(x1 - x0);
-        } else {
-            decltype(y[0]*(x[1]-x[0])) r = 0;
-            for (uint_t i : range(i0, i1)) {
-                r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
+        decltype(y[0]*(x[1]-x[0])) r = 0;
+        for (uint_t i : range(x.dims[1])) {
+            // Find the fraction of this bin that is within [x0,x1]
+            double low = std::max<double>(x.safe[i], x0);
+            double up  = std::min<double>(x.safe[i+x.dims[1]], x1);
+            if (low < up) {
+                r += y.safe[i]*(up - low);
             }
-
-            r += y.safe[i0]*(x.safe[i0] - x0);
-            r += y.safe[i1]*(x1 - x.safe[i1]);
-
-            return r;
         }
+
+        return r;
     }
 
     template<typename TypeX, typename TypeY, typename enable = typename std::enable_if<
-- 
2.43.0


From c1f5ff69abd5f3d48f5f3e24c50fd367f9f55eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 050/209] fix: integrate_func() overflowed if the integral
 converges slowly

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 94d08cd..f1465b4 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -904,7 +904,7 @@ namespace vif {
             ++n;
 
             rtype tr = 0;
-            uint_t tn = 1 << n;
+            uint_t tn = uint_t(1) << n;
             auto d = (x1 - x0)/double(tn);
             for (uint_t k = 1; k <= tn/2; ++k) {
                 tr += f(x0 + (2*k-1)*d);
@@ -912,7 +912,7 @@ namespace vif {
             buffer.push_back(0.5*buffer[oid] + d*tr);
 
             for (uint_t m = 1; m <= n; ++m) {
-                auto t = 1 << (2*m);
+                double t = pow(4.0, m);
                 buffer.push_back((t*buffer.back() - buffer[oid+m-1])/(t - 1));
             }
 
-- 
2.43.0


From 1a730f44ea8ebd0bcb5df49fedb4997efefcd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:34 +0000
Subject: [PATCH 051/209] fix: rms() of integers overflowed

---
 include/vif/math/reduce.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index f1465b4..0ef9c7d 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -463,7 +463,8 @@ namespace vif {
     double rms(const vec<Dim,Type>& v) {
         double sum = 0;
         for (auto& t : v) {
-            sum += t*t;
+            double d = t;
+            sum += d*d;
         }
 
         return sqrt(sum/v.size());
-- 
2.43.0


From 4d0c11e2c52be1e5b2b9d5a8db6def3b52136ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 052/209] fix: cumul_reverse() was not cumulative

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From 6eba581dd15acf2758a21fe1e2fe2800115dad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 053/209] fix: histogram() and histogram2d() did not call the
 function for every bin

---
 include/vif/math/histogram.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 222d137..96266f6 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -258,8 +258,6 @@ namespace vif {
                 });
 
                 func(i, meta::add_const(ids), iterator{first}, iterator{last});
-
-                if (last == ids.data.end()) break;
             }
         }
     }
@@ -317,11 +315,9 @@ namespace vif {
 
                     func(i, j, meta::add_const(ids), iterator{firsty}, iterator{lasty});
 
-                    if (lasty == lastx) break;
                     firsty = lasty;
                 }
 
-                if (lastx == ids.data.end()) break;
                 firstx = lastx;
             }
         }
-- 
2.43.0


From 2692851b0561d9f356f8e3b4e19f4408de2686f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 054/209] fix: interpolate_3spline() was incorrect if 'x' is
 not regularly spaced

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 80059997028ef9f91a18aba30822ba209a647dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 055/209] fix: interpolate() did not check the dimensions of
 the uncertainties

---
 include/vif/math/interpolate.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 16c3a2c..3601e0f 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -116,6 +116,8 @@ namespace vif {
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
+        vif_check(y.dims == e.dims, "incompatible dimensions between Y and E arrays (", y.dims,
+            " vs. ", e.dims, ")");
         vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");
 
         uint_t nmax = x.size();
-- 
2.43.0


From 9d74bfd54b83b85f144869e19264debbde1c17a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 056/209] fix: bilinear() and bicubic_strict() read out of
 bounds on very small maps

---
 include/vif/math/interpolate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 3601e0f..222c48c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -161,6 +161,9 @@ namespace vif {
 
     template<typename Type>
     meta::rtype_t<Type> bilinear(const vec<2,Type>& map, double x, double y) {
+        vif_check(map.dims[0] >= 2 && map.dims[1] >= 2, "interpolated map must contain at least 2 "
+            "elements in each dimension (got ", map.dims, ")");
+
         int_t tix = floor(x);
         int_t tiy = floor(y);
         double dx = x - tix;
@@ -234,7 +237,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
+        if (tix < 0 || uint_t(tix+1) >= map.dims[0] || tiy < 0 || uint_t(tiy+1) >= map.dims[1]) {
             return def;
         }
 
@@ -470,7 +473,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix <= 0 || uint_t(tix) >= map.dims[0]-2 || tiy <= 0 || uint_t(tiy) >= map.dims[1]-2) {
+        if (tix <= 0 || uint_t(tix+2) >= map.dims[0] || tiy <= 0 || uint_t(tiy+2) >= map.dims[1]) {
             return def;
         }
 
-- 
2.43.0


From 76889ac1ba4f729fc6faa4677a9a67f11ea1ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 057/209] fix: bilinear_strict() returned the default value on
 the last row and column of the map

---
 include/vif/math/interpolate.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 222c48c..bb34a5d 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -237,12 +237,17 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
+        double dx = x - tix;
+        double dy = y - tiy;
+
+        // The last row and column are part of the map
+        if (tix > 0 && uint_t(tix+1) == map.dims[0] && dx == 0.0) { --tix; dx = 1.0; }
+        if (tiy > 0 && uint_t(tiy+1) == map.dims[1] && dy == 0.0) { --tiy; dy = 1.0; }
+
         if (tix < 0 || uint_t(tix+1) >= map.dims[0] || tiy < 0 || uint_t(tiy+1) >= map.dims[1]) {
             return def;
         }
 
-        double dx = x - tix;
-        double dy = y - tiy;
         uint_t ix = tix;
         uint_t iy = tiy;
 
-- 
2.43.0


From 92ec77fcf1886bfc08b8ffaebd79608962922922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 058/209] fix: rgen_log() of integers used an integer division,
 and rgen() wrapped decreasing unsigned ranges

---
 include/vif/math/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/base.hpp b/include/vif/math/base.hpp
index fa2da01..e9ff117 100644
--- a/include/vif/math/base.hpp
+++ b/include/vif/math/base.hpp
@@ -202,7 +202,7 @@ namespace vif {
             return vec1d({static_cast<double>(i)});
         } else {
             vec1d v(n);
-            double dx = (j-i)/double(n-1);
+            double dx = (double(j)-double(i))/double(n-1);
             for (uint_t k : range(uint_t(n))) {
                 v.safe[k] = i + k*dx;
             }
@@ -221,7 +221,7 @@ namespace vif {
             return {i};
         } else {
             vec1d v(n);
-            double dx = log10(j/i)/double(n-1);
+            double dx = log10(double(j)/double(i))/double(n-1);
             for (uint_t k : range(uint_t(n))) {
                 v.safe[k] = i*e10(k*dx);
             }
-- 
2.43.0


From 126a90620c87a62817d5c74be9392fac9a27f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 059/209] fix: rgen_step() of integers did not round the number
 of steps

---
 include/vif/math/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/base.hpp b/include/vif/math/base.hpp
index e9ff117..3c4914e 100644
--- a/include/vif/math/base.hpp
+++ b/include/vif/math/base.hpp
@@ -245,9 +245,9 @@ namespace vif {
         uint_t n;
         double step = s;
         if (ctype(i) < ctype(j)) {
-            n = round((ctype(j) - ctype(i))/s) + 1;
+            n = round((ctype(j) - ctype(i))/step) + 1;
         } else {
-            n = round((ctype(i) - ctype(j))/s) + 1;
+            n = round((ctype(i) - ctype(j))/step) + 1;
             step *= -1.0;
         }
 
-- 
2.43.0


From 4693645211bfea290a0d06818d6bd94b012a0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 060/209] fix: randomi() was biased for ranges that include
 negative values

---
 include/vif/math/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 340be64..8101ebc 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -60,7 +60,7 @@ namespace vif {
         vec<meta::dim_total<Args...>::value,decltype(mi+ma)> {
         auto v = randomu(seed, std::forward<Args>(args)...);
         using rtype = decltype(mi + ma);
-        return vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi) + mi);
+        return vec<meta::dim_total<Args...>::value,rtype>(floor(v*(double(ma) + 1.0 - mi) + mi));
     }
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
-- 
2.43.0


From 060d38646a24aa8a9fda668958a3c66e2d534d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 061/209] fix: build_convex_hull() read out of bounds if there
 are no points

---
 include/vif/math/convex_hull.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..c545e7f 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -111,6 +111,8 @@ namespace vif {
             "(", x.dims, " vs. ", y.dims, ")");
 
         uint_t npt = x.size();
+        if (npt == 0) return {};
+
         vec1u res(2*npt);
         vec1u ids = indgen<uint_t>(npt);
         std::sort(ids.data.begin(), ids.data.end(), [&](uint_t i, uint_t j) {
@@ -133,7 +135,8 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
+        for (uint_t n = npt; n >= 2; --n) {
+            const uint_t i = n-2;
             while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
             res.safe[k] = ids.safe[i];
             ++k;
-- 
2.43.0


From 2bcbb927170b32de148f4bad49a951a0ce0ddcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 062/209] fix: orientation of a convex hull was incorrect if
 the first three vertices are aligned

---
 include/vif/math/convex_hull.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index c545e7f..d0039c6 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -51,8 +51,14 @@ namespace vif {
                 closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
                      abs(y.safe[0] - y.safe[hend]) < eps);
 
-                orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
-                         (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
+                // The first vertices can be aligned, use the area of the whole hull
+                T area = 0;
+                for (uint_t i : range(1, hend)) {
+                    area += (x.safe[i] - x.safe[0])*(y.safe[i+1] - y.safe[0]) -
+                            (y.safe[i] - y.safe[0])*(x.safe[i+1] - x.safe[0]);
+                }
+
+                orient = area > 0 ? 1 : -1;
 
                 validated = true;
             }
-- 
2.43.0


From d18608423cbe893dc4e963c571afdb8bda71f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 063/209] fix: decompose_lu::invert() was incorrect without
 pivoting

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..ba995e3 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (c == k);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From 3d4d8f31db048cac60abafaed653501731a774b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 064/209] fix: matrix::solve() solved the transposed system

---
 include/vif/math/bits/matrix-functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index ba995e3..af2056c 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -712,6 +712,9 @@ namespace matrix {
         int info;
         vec<1,int> ipiv(n);
 
+        // FORTRAN matrices are column-oriented
+        alpha = transpose(alpha);
+
         lapack::dgesv_(&n, &nrhs, alpha.raw_data(), &lda, ipiv.raw_data(), beta.raw_data(),
             &ldb, &info);
         if (info != 0) {
-- 
2.43.0


From b179d15e49847daacbe6dcda757e3187247950ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 065/209] fix: division of a matrix by a scalar did not compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From c7b05f4322cad9bf19287ea3e8ce772838439b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 066/209] fix: linfit_nn() never reported success, and returned
 NaN instead of zero coefficients

---
 include/vif/math/linfit.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..50889d0 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -149,6 +149,7 @@ namespace vif {
 
                     // Update coeff
                     double old = fr.params.safe[m0];
+                    if (old == 0.0) continue;
                     fr.params.safe[m0] *= beta.safe[m0]/av;
 
                     ta += abs(fr.params.safe[m0] - old);
@@ -158,9 +159,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = titer < titermax;
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From fb83cd4b076166b6d997006318c5074ae5fb6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 067/209] fix: linfit_batch did not check the dimensions of the
 models

---
 include/vif/math/linfit.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 50889d0..9330677 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -346,6 +346,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(x.size() == nm, "incompatible dimensions between X and YE arrays (",
+                x.dims, " vs. ", meta::dims(ye), ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
@@ -372,6 +374,9 @@ namespace vif {
             uint_t np = x.dims[0];
             uint_t nm = meta::size(ye);
 
+            vif_check(x.size() == np*nm, "incompatible dimensions between X and YE arrays (",
+                x.dims, " vs. ", meta::dims(ye), ")");
+
             cache.resize(np,nm);
             for (uint_t i : range(np))
             for (uint_t j : range(nm)) {
-- 
2.43.0


From 7a5f5c1b1993b498da5c6ddccc5c5a237c411cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:35 +0000
Subject: [PATCH 068/209] fix: mpfit() did not let parameters move toward their
 limits

---
 include/vif/math/mpfit.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index dea5498..54280c1 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -573,12 +573,12 @@ namespace vif {
         while (true) {
             fjac = mpfit_fdjac2(deviate, xall, ifree, x, fvec, options);
 
-            // Set derivatives of frozen parameters to zero
+            // Set derivatives of parameters pegged at their limits to zero
             for (uint_t p : range(n)) {
-                if (!is_nan(llim[p]) && total(fvec*fjac(p,_)) > 0.0) {
+                if (x[p] == llim[p] && total(fvec*fjac(p,_)) > 0.0) {
                     fjac(p,_) = 0.0;
                 }
-                if (!is_nan(ulim[p]) && total(fvec*fjac(p,_)) < 0.0) {
+                if (x[p] == ulim[p] && total(fvec*fjac(p,_)) < 0.0) {
                     fjac(p,_) = 0.0;
                 }
             }
@@ -670,8 +670,11 @@ namespace vif {
                     // we should take a step in the same direction but shorter distance.
                     // The step should take us right to the limit in that case.
                     if (anylim) {
-                        wa1[ilow] = max(wa1[ilow], 0.0);
-                        wa1[iup] = min(wa1[iup], 0.0);
+                        // Do not allow any step out of bounds for pegged parameters
+                        vec1u ilpeg = where(x == llim);
+                        wa1[ilpeg] = max(wa1[ilpeg], 0.0);
+                        vec1u iupeg = where(x == ulim);
+                        wa1[iupeg] = min(wa1[iupeg], 0.0);
 
                         vec1b dwa1 = abs(wa1) > eps;
                         vec1u whl = where(dwa1 && x + wa1 < llim);
-- 
2.43.0


From 54780e8250a095569f2b0da49452fa37dcb0082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 069/209] fix: FITS file objects could not be used after a
 first error

---
 include/vif/io/fits/base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..8a26e82 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -392,6 +392,7 @@ namespace impl {
 
             void open(const std::string& filename) {
                 close();
+                status_ = 0;
 
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
                     fits_create_file(&fptr_, ("!"+filename).c_str(), &status_);
@@ -457,6 +458,9 @@ namespace impl {
                 if (!is_open()) {
                     throw fits::exception("no FITS file opened, cannot proceed");
                 }
+
+                // Start from a clean state, even if a previous operation has failed
+                status_ = 0;
             }
 
             void get_table_format_() {
-- 
2.43.0


From 13330d1e7735d1596c6d7d662c87ddd48b5f25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 070/209] fix: moving a FITS table did not preserve its row or
 column orientation

---
 include/vif/io/fits/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 8a26e82..c9199f4 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -382,7 +382,7 @@ namespace impl {
             }
 
             file_base(file_base&& in) noexcept : type_(in.type_), rights_(in.rights_),
-                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_) {
+                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_), format_(in.format_) {
                 in.fptr_ = nullptr;
             }
 
-- 
2.43.0


From 9460de3fe81b9ced0c227a35dfc78788dc8bfb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 071/209] fix: axis_count() and image_dims() failed on tables
 instead of returning zero

---
 include/vif/io/fits/base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index c9199f4..17fc2a7 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -624,6 +624,11 @@ namespace impl {
             uint_t axis_count() const {
                 check_is_open_();
 
+                int type = IMAGE_HDU;
+                fits_get_hdu_type(fptr_, &type, &status_);
+                fits::vif_check_cfitsio(status_, "could not get the type of the HDU");
+                if (type != IMAGE_HDU) return 0;
+
                 int naxis;
                 fits_get_img_dim(fptr_, &naxis, &status_);
                 fits::vif_check_cfitsio(status_, "could not get the number of axis in HDU");
-- 
2.43.0


From 7b2afe16ece1af084e9d00fc3b2a8a3046317d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 072/209] fix: reach_hdu() and hdu_type() stopped the program
 instead of throwing an exception

---
 include/vif/io/fits/base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 17fc2a7..9d05dcc 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -581,7 +581,7 @@ namespace impl {
                         } else if (xtension == "BINTABLE" || xtension == "TABLE") {
                             return fits::table_hdu;
                         } else {
-                            vif_check(false, "unknown XTENSION value '", xtension, "'");
+                            vif_check_fits(false, "unknown XTENSION value '"+xtension+"'");
                         }
                     }
                 }
@@ -594,8 +594,8 @@ namespace impl {
 
                 uint_t nhdu = hdu_count();
                 if (rights_ == read_only) {
-                    vif_check(hdu < nhdu, "requested HDU does not exists in this "
-                        "FITS file (", hdu, " vs. ", nhdu, ")");
+                    vif_check_fits(hdu < nhdu, "requested HDU does not exists in this "
+                        "FITS file ("+to_string(hdu)+" vs. "+to_string(nhdu)+")");
                 } else {
                     if (hdu >= nhdu) {
                         // Create missing HDUs to be able to reach the one requested
-- 
2.43.0


From a4ed87cd970dbb5ae5658cb59446b9a6832a5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 073/209] fix: reach_hdu() inserted the missing HDUs before
 existing ones

---
 include/vif/io/fits/base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 9d05dcc..99a1795 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -599,6 +599,12 @@ namespace impl {
                 } else {
                     if (hdu >= nhdu) {
                         // Create missing HDUs to be able to reach the one requested
+                        // NB: CFITSIO inserts after the current HDU, so move to the last one
+                        if (nhdu != 0) {
+                            fits_movabs_hdu(fptr_, nhdu, nullptr, &status_);
+                            fits::vif_check_cfitsio(status_, "could not reach the last HDU");
+                        }
+
                         long naxes = 0;
                         for (uint_t i = nhdu; i <= hdu; ++i) {
                             fits_insert_img(fptr_, impl::fits_impl::traits<float>::image_type,
-- 
2.43.0


From 50ae5da2f87bbaad35bfabdb2d5490c6de7d5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 074/209] fix: read_keyword() modified the value on failure,
 and did not decode quotes and long strings

---
 include/vif/io/fits/base.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 99a1795..dc5913e 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -520,8 +520,22 @@ namespace impl {
                 char content[80];
                 int status = 0;
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
-                value = content;
-                value = trim(value, " '");
+                if (status != 0) return false;
+
+                if (content[0] != '\'') {
+                    value = trim(std::string(content));
+                    return true;
+                }
+
+                // Quoted string, which can continue over several lines
+                char* str = nullptr;
+                fits_read_key_longstr(fptr_, name.c_str(), &str, comment, &status);
+                if (status == 0) {
+                    value = trim(std::string(str));
+                }
+
+                int free_status = 0;
+                fits_free_memory(str, &free_status);
                 return status == 0;
             }
 
-- 
2.43.0


From abf28d42350db1030942befbe72e2ab5260dd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 075/209] fix: write_keyword() and add_keyword() truncated long
 strings

---
 include/vif/io/fits/base.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index dc5913e..309070f 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -764,13 +764,7 @@ namespace impl {
                 const std::string& com = "") {
                 check_is_open_();
 
-                if (name.size() > 8) {
-
-                }
-
-                fits_update_key(fptr_, TSTRING, name.c_str(),
-                    const_cast<char*>(value.c_str()),
-                    const_cast<char*>(com.c_str()), &status_);
+                fits_update_key_longstr(fptr_, name.c_str(), value.c_str(), com.c_str(), &status_);
                 fits::vif_check_cfitsio(status_, "could not write keyword '"+name+"'");
             }
 
@@ -778,9 +772,7 @@ namespace impl {
                 const std::string& com = "") {
                 check_is_open_();
 
-                fits_write_key(fptr_, TSTRING, name.c_str(),
-                    const_cast<char*>(value.c_str()),
-                    const_cast<char*>(com.c_str()), &status_);
+                fits_write_key_longstr(fptr_, name.c_str(), value.c_str(), com.c_str(), &status_);
                 fits::vif_check_cfitsio(status_, "could not write keyword '"+name+"'");
             }
 
-- 
2.43.0


From 0f595641ac9b48f32112df9fdb90efab59471ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 076/209] fix: write_header() copied the scaling of the pixels
 of another image, corrupting the data

---
 include/vif/io/fits/base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 309070f..62c35b1 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -726,7 +726,8 @@ namespace impl {
                         std::string nam = trim(entry.substr(0, eqpos));
                         if (nam == "SIMPLE" || nam == "BITPIX" || begins_with(nam, "NAXIS") ||
                             nam == "EXTEND" || nam == "XTENSION" || nam == "EXTNAME" ||
-                            nam == "PCOUNT" || nam == "GCOUNT") {
+                            nam == "PCOUNT" || nam == "GCOUNT" || nam == "BSCALE" ||
+                            nam == "BZERO" || nam == "BLANK") {
                             continue;
                         }
                     }
-- 
2.43.0


From de4c720adc786cfb0f1163efcaad75e8db15e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 077/209] fix: getkey() and setkey() cut quoted strings at the
 first '/', and getkey() kept doubled quotes

---
 include/vif/io/fits/base.hpp | 39 ++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 62c35b1..cb4de2b 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -796,6 +796,35 @@ namespace impl {
     }
 }
 
+namespace impl {
+    namespace fits_impl {
+        // Find the quote that closes the string which starts at 'p' (quotes are doubled in strings)
+        inline std::size_t find_closing_quote(const std::string& s, std::size_t p) {
+            for (++p; p < s.size(); ++p) {
+                if (s[p] != '\'') continue;
+                if (p+1 < s.size() && s[p+1] == '\'') {
+                    ++p;
+                } else {
+                    return p;
+                }
+            }
+
+            return std::string::npos;
+        }
+
+        // Find the '/' that introduces the comment of a keyword, 'p' is where the value starts
+        inline std::size_t find_comment(const std::string& s, std::size_t p) {
+            std::size_t q = s.find_first_not_of(" ", p);
+            if (q != std::string::npos && s[q] == '\'') {
+                std::size_t e = find_closing_quote(s, q);
+                if (e != std::string::npos) p = e;
+            }
+
+            return s.find_first_of("/", p);
+        }
+    }
+}
+
 namespace fits {
     // Header keyword manipulation
     template<typename T>
@@ -805,7 +834,7 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos+1);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
@@ -824,14 +853,16 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos+1);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
             if (nam == key) {
                 std::string value = trim(entry.substr(eqpos+1, cpos-eqpos-1));
                 if (value.find_first_of("'") == 0) {
-                    value = trim(value, "'");
+                    std::size_t epos = impl::fits_impl::find_closing_quote(value, 0);
+                    value = value.substr(1, epos == value.npos ? epos : epos-1);
+                    value = replace(trim(value), "''", "'");
                 }
                 v = value;
                 return true;
@@ -880,7 +911,7 @@ namespace fits {
             // Extract entry's name
             std::string nam = trim(tentry.substr(0, eqpos));
             // Look for comments
-            std::size_t cpos = tentry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(tentry, eqpos+1);
 
             if (nam == key) {
                 // The entry already exists
-- 
2.43.0


From 18085ba5d2db26d827666008ed82cea0f202f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 078/209] fix: setkey() inserted the keyword inside the last
 one if it contains 'END'

---
 include/vif/io/fits/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index cb4de2b..fa4feb9 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -896,8 +896,8 @@ namespace fits {
         // Insertion point
         std::size_t ipos = hdr.npos;
         if (hdr.size() >= 80) {
-            ipos = hdr.substr(hdr.size() - 80, 80).find("END");
-            if (ipos != hdr.npos) ipos += hdr.size() - 80;
+            ipos = ((hdr.size() - 1)/80)*80;
+            if (trim(hdr.substr(ipos)) != "END") ipos = hdr.npos;
         }
 
         // Look for existing entry in header
-- 
2.43.0


From 833e316a69b158af77e47e4103380a9013894ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 079/209] fix: parse_header() read out of bounds on malformed
 headers, and cut strings at doubled quotes

---
 include/vif/io/fits/base.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index fa4feb9..309d0d5 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -963,11 +963,11 @@ namespace fits {
                 keys.push_back(header_keyword{});
                 auto& k = keys.back();
                 k.key = trim(lines[i]);
-            } else if (lines[i].find("CONTINUE ") == 0) {
+            } else if (lines[i].find("CONTINUE ") == 0 && !keys.empty()) {
                 auto& k = keys.back();
-                std::string right = trim(lines[i].substr(10));
+                std::string right = trim(lines[i].substr(9));
                 if (!right.empty() && right[0] == '\'') {
-                    auto p2 = right.find_first_of('\'', 1);
+                    auto p2 = impl::fits_impl::find_closing_quote(right, 0);
                     std::string val;
                     if (p2 != std::string::npos) {
                         val = trim(right.substr(1, p2-1));
@@ -981,10 +981,10 @@ namespace fits {
                         k.value = k.value.substr(1, k.value.size()-2);
                     }
 
-                    if (k.value.back() == '&') {
+                    if (!k.value.empty() && k.value.back() == '&') {
                         k.value = k.value.substr(0, k.value.size()-1);
                     }
-                    if (val.back() == '&') {
+                    if (!val.empty() && val.back() == '&') {
                         val = val.substr(0, val.size()-1);
                     }
 
@@ -1009,7 +1009,7 @@ namespace fits {
                     std::string right = trim(lines[i].substr(p+1));
                     if (!right.empty()) {
                         if (right[0] == '\'') {
-                            auto p2 = right.find_first_of('\'', 1);
+                            auto p2 = impl::fits_impl::find_closing_quote(right, 0);
                             if (p2 != std::string::npos) {
                                 ++p2;
 
-- 
2.43.0


From e5e789b4b3ea0f2c08c319a113f1917466f06fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 080/209] fix: read_subset() did not check the lower bound of
 ranges

---
 include/vif/io/fits/image.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 98f98fb..9240b98 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -75,6 +75,10 @@ namespace fits {
             std::vector<long>& fpixel, std::vector<long>& lpixel,
             impl::range_impl::right_range_t r, const Args& ... args) const {
 
+            vif_check_fits(r.first < uint_t(naxes[naxes.size()-1-idim]), "image subset goes outside of "
+                "the image boundaries (axis "+to_string(idim)+": "+to_string(r.first)+" vs. "+
+                to_string(naxes[naxes.size()-1-idim]));
+
             fpixel[naxes.size()-1-idim] = r.first+1;
             lpixel[naxes.size()-1-idim] = naxes[naxes.size()-1-idim];
 
@@ -86,8 +90,9 @@ namespace fits {
             std::vector<long>& fpixel, std::vector<long>& lpixel,
             impl::range_impl::left_right_range_t r, const Args& ... args) const {
 
-            vif_check_fits(r.last < uint_t(naxes[naxes.size()-1-idim]), "image subset goes outside of "
-                "the image boundaries (axis "+to_string(idim)+": "+to_string(r.last)+" vs. "+
+            vif_check_fits(r.first <= r.last && r.last < uint_t(naxes[naxes.size()-1-idim]),
+                "image subset goes outside of the image boundaries (axis "+to_string(idim)+": "+
+                to_string(r.first)+" to "+to_string(r.last)+" vs. "+
                 to_string(naxes[naxes.size()-1-idim]));
 
             fpixel[naxes.size()-1-idim] = r.first+1;
-- 
2.43.0


From 1891e8088d4cdf0859bd126e60564d094bbae95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:30 +0000
Subject: [PATCH 081/209] fix: reading a scalar from a FITS table with several
 rows silently returned the first row

---
 include/vif/io/fits/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 419557e..897b71a 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -546,11 +546,11 @@ namespace fits {
 
         template<typename T>
         bool read_column_check_dim_(const table_read_options& opts, T&, uint_t vdim,
-            long naxis, long repeat) const {
+            long naxis, long nelem) const {
 
             // Early exit to refuse loading 1D vectors into scalars if the number of
             // element is greater than one
-            if (naxis == 1 && repeat > 1) return false;
+            if (naxis == 1 && nelem > 1) return false;
 
             return read_column_check_dim_impl_(opts, naxis, vdim);
         }
@@ -644,7 +644,7 @@ namespace fits {
                 }
             }
 
-            if (!read_column_check_dim_(opts, value, vdim, naxis, repeat)) {
+            if (!read_column_check_dim_(opts, value, vdim, naxis, axes[0])) {
                 return read_sentry{this, "wrong number of dimensions for column '"+colname+"' "
                     "(expected "+to_string(vdim)+", got "+to_string(naxis)+")"};
             }
-- 
2.43.0


From 26ae7d7f29726b6103192b320ba86141dcf3007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 082/209] fix: reading information about an empty column of
 bytes or booleans stopped the program

---
 include/vif/io/fits/table.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 897b71a..debd5d6 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -179,14 +179,19 @@ namespace fits {
                 break;
             }
             case 'B' : {
-                vec<1,char> v(repeat);
-                char def = impl::fits_impl::traits<char>::def();
-                int null;
-                fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
-                    &def, v.raw_data(), &null, &status_);
-                fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
-
-                if (min(v) == 0 && max(v) <= 1) {
+                uint_t nrow = 0;
+                read_keyword("NAXIS2", nrow);
+
+                vec<1,char> v(nrow == 0 ? 0 : repeat);
+                if (!v.empty()) {
+                    char def = impl::fits_impl::traits<char>::def();
+                    int null;
+                    fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                        &def, v.raw_data(), &null, &status_);
+                    fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
+                }
+
+                if (!v.empty() && min(v) == 0 && max(v) <= 1) {
                     ci.type = column_info::boolean;
                     ci.cfitsio_type = TLOGICAL;
                 } else {
-- 
2.43.0


From 123ae44296b59a1d67ec582edeb6e4bfb111239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 083/209] fix: reading or updating elements of a FITS column
 did not check the number of dimensions

---
 include/vif/io/fits/table.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index debd5d6..7f3819d 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -940,6 +940,16 @@ namespace fits {
             typename std::enable_if<!meta::is_vec<Type>::value>::type>
         void read_elements_resize_(Type&, const vec1u&) const {}
 
+        // Make sure that the provided value has as many dimensions as there are ranges in 'Args'
+        template<typename Type, typename ... Args>
+        void check_elements_dim_(const std::string& tcolname) const {
+            const uint_t nrange = impl::vec_access::result_dim<Args...>::value;
+            const uint_t vdim = meta::vec_dim<Type>::value;
+
+            vif_check(nrange == vdim, "incompatible number of dimensions of the elements to "
+                "access in column '", tcolname, "' (", nrange, " vs. ", vdim, ")");
+        }
+
     public :
 
         template<typename Type, typename ... Args>
@@ -959,6 +969,8 @@ namespace fits {
                 "compared to what is present in the file (", naccessed, " vs. ",
                 ci.dims.size(), ")");
 
+            check_elements_dim_<Type, Args...>(tcolname);
+
             using vtype = typename impl::fits_impl::data_type<Type>::type;
             using traits = impl::fits_impl::traits<vtype>;
             bool convertible = false;
@@ -1699,6 +1711,8 @@ namespace fits {
             vif_check(naccessed == ci.dims.size(), "wrong number of dimensions for column '",
                 tcolname, "' (expected ", naccessed, ", got ", ci.dims.size(), ")");
 
+            check_elements_dim_<Type, Args...>(tcolname);
+
             update_elements_check_dims_(tcolname, value, ci.dims);
 
             using vtype = typename impl::fits_impl::data_type<Type>::type;
-- 
2.43.0


From 16b13466a9c301d9cef93ef6fe7952039d81db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 084/209] fix: reading or updating one string in a FITS column
 corrupted memory

---
 include/vif/io/fits/table.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 7f3819d..6cc2e8c 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -927,6 +927,23 @@ namespace fits {
             fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
         }
 
+        void read_elements_impl_(const table_read_options&, std::string& v, const std::string& cname,
+            int cid, long firstrow, long firstelem) const {
+
+            int type, null;
+            long repeat, width;
+            fits_get_coltype(fptr_, cid, &type, &repeat, &width, &status_);
+            fits::vif_check_cfitsio(status_, "could not read type of column '"+cname+"'");
+
+            std::vector<char> data(width+1);
+            char* buffer[1] = {data.data()};
+            char def = '\0';
+            fits_read_col(fptr_, TSTRING, cid, firstrow, firstelem, 1, &def, buffer, &null, &status_);
+            fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
+
+            v = trim(std::string(buffer[0]));
+        }
+
         template<std::size_t Dim, typename Type>
         void read_elements_resize_(vec<Dim,Type>& v, const vec1u& dims) const {
             for (uint_t i : range(Dim)) {
@@ -1653,6 +1670,14 @@ namespace fits {
             fits::vif_check_cfitsio(status_, "could not update element in column '"+tcolname+"'");
         }
 
+        void update_elements_impl_(const std::string& tcolname, int cid,
+            const std::string& value, long firstrow, long firstelem) {
+
+            char* buffer[1] = {const_cast<char*>(value.c_str())};
+            fits_write_col(fptr_, TSTRING, cid, firstrow, firstelem, 1, buffer, &status_);
+            fits::vif_check_cfitsio(status_, "could not update element in column '"+tcolname+"'");
+        }
+
         template<std::size_t Dim, typename Type>
         void update_elements_impl_(const std::string& tcolname, int cid,
             const vec<Dim,Type*>& value, long firstrow, long firstelem) {
-- 
2.43.0


From c49cda70fff34d705258e86f7fbdf159b9dc4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:33 +0000
Subject: [PATCH 085/209] fix: reading a FITS column of empty strings left the
 previous content of the vector

---
 include/vif/io/fits/table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 6cc2e8c..085cac5 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -417,6 +417,10 @@ namespace fits {
 
             // NB: cfitsio doesn't seem to like reading empty strings
             if (naxes[0] == 0) {
+                for (uint_t i : range(v)) {
+                    v.safe[i].clear();
+                }
+
                 return;
             }
 
-- 
2.43.0


From 3b0c6645681e73dc95afbc2c407095ebcbcb71fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:40 +0000
Subject: [PATCH 086/209] fix: infinite values were read from FITS files as NaN

---
 include/vif/io/fits/base.hpp  | 20 ++++++++++++++++++++
 include/vif/io/fits/image.hpp | 13 ++++++-------
 include/vif/io/fits/table.hpp | 14 +++++++-------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 309d0d5..9c0759d 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -463,6 +463,26 @@ namespace impl {
                 status_ = 0;
             }
 
+            // Get the address of the value to use for missing data ('type' is the type in the file)
+            // NB: CFITSIO considers that infinite values are missing, so do not provide any when
+            // floating point data are read without narrowing.
+            template<typename T>
+            static T* null_value_(T& def, int type) {
+                if (type == TFLOAT || (type == TDOUBLE && !std::is_same<T,float>::value)) {
+                    return nullptr;
+                } else {
+                    return &def;
+                }
+            }
+
+            int column_type_(int cid) const {
+                int type;
+                long repeat, width;
+                fits_get_coltype(fptr_, cid, &type, &repeat, &width, &status_);
+                fits::vif_check_cfitsio(status_, "could not read type of column "+to_string(cid));
+                return type;
+            }
+
             void get_table_format_() {
                 // Check if data exists
                 uint_t nhdu = hdu_count();
diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 9240b98..d05ad90 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -38,7 +38,6 @@ namespace fits {
             vif_check_fits(impl::fits_impl::traits<Type>::is_convertible(type), "wrong image type "
                 "(expected "+pretty_type_t(Type)+", got "+impl::fits_impl::type_to_string_(type)+")");
 
-            type = impl::fits_impl::traits<Type>::ttype;
         }
 
         void make_indices_(uint_t idim, const std::vector<long>& naxes,
@@ -133,7 +132,8 @@ namespace fits {
 
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, 1, v.size(), &def, v.raw_data(), &anynul, &status_);
+            fits_read_img(fptr_, impl::fits_impl::traits<Type>::ttype, 1, v.size(),
+                null_value_(def, type), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read image from HDU");
         }
 
@@ -159,8 +159,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
             std::vector<long> inc(Dim, 1);
-            fits_read_subset(fptr_, type, fpixel.data(), lpixel.data(), inc.data(),
-                &def, v.raw_data(), &anynul, &status_);
+            fits_read_subset(fptr_, impl::fits_impl::traits<Type>::ttype, fpixel.data(), lpixel.data(),
+                inc.data(), null_value_(def, type), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read subset image from HDU");
         }
 
@@ -189,12 +189,11 @@ namespace fits {
                     " in dims "+to_string(nn)+")");
             }
 
-            type = impl::fits_impl::traits<Type>::ttype;
-
             Type val;
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, ppos, 1, &def, &val, &anynul, &status_);
+            fits_read_img(fptr_, impl::fits_impl::traits<Type>::ttype, ppos, 1,
+                null_value_(def, type), &val, &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not pixel from HDU");
 
             return val;
diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 085cac5..0fd6750 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -389,8 +389,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem, &def,
-                v.raw_data(), &null, &status_
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem,
+                null_value_(def, column_type_(cid)), v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
         }
@@ -402,7 +402,7 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1, null_value_(def, column_type_(cid)),
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
@@ -912,8 +912,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem, &def,
-                v.raw_data(), &null, &status_
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem,
+                null_value_(def, column_type_(cid)), v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read elements from column '"+cname+"'");
         }
@@ -925,8 +925,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1, &def,
-                reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1,
+                null_value_(def, column_type_(cid)), reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
         }
-- 
2.43.0


From 8a8325048411ce72cb67a450b6bd6dde98bb6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:28 +0000
Subject: [PATCH 087/209] fix: reading information about a FITS column of bytes
 failed with values outside the range of a char

---
 include/vif/io/fits/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 0fd6750..69b4e57 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -182,11 +182,11 @@ namespace fits {
                 uint_t nrow = 0;
                 read_keyword("NAXIS2", nrow);
 
-                vec<1,char> v(nrow == 0 ? 0 : repeat);
+                vec1d v(nrow == 0 ? 0 : repeat);
                 if (!v.empty()) {
-                    char def = impl::fits_impl::traits<char>::def();
+                    double def = 0;
                     int null;
-                    fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                    fits_read_col(fptr_, TDOUBLE, c, 1, 1, repeat,
                         &def, v.raw_data(), &null, &status_);
                     fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
                 }
-- 
2.43.0


From 9f9c17740debe508a37365ba42017895d017ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:29 +0000
Subject: [PATCH 088/209] fix: data written in a row-oriented FITS table could
 not be read before closing the file

---
 include/vif/io/fits/table.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 69b4e57..c357c41 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -150,6 +150,15 @@ namespace fits {
 
     private :
 
+        // Get the current number of rows
+        // NB: the NAXIS2 keyword is not up to date while data is being written
+        uint_t row_count_() const {
+            long nrow = 0;
+            fits_get_num_rows(fptr_, &nrow, &status_);
+            fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
+            return nrow;
+        }
+
         bool read_column_info_(int c, column_info& ci) const {
             ci.column_id = c;
 
@@ -179,8 +188,7 @@ namespace fits {
                 break;
             }
             case 'B' : {
-                uint_t nrow = 0;
-                read_keyword("NAXIS2", nrow);
+                uint_t nrow = row_count_();
 
                 vec1d v(nrow == 0 ? 0 : repeat);
                 if (!v.empty()) {
@@ -263,9 +271,7 @@ namespace fits {
 
             // Handle row-oriented tables
             if (format_ == table_format::row_oriented) {
-                uint_t nrow = 0;
-                read_keyword("NAXIS2", nrow);
-                ci.dims.push_back(nrow);
+                ci.dims.push_back(row_count_());
             }
 
             ci.dims = reverse(ci.dims);
@@ -644,7 +650,7 @@ namespace fits {
             // Support loading row-oriented FITS tables (and ASCII)
             uint_t nrow = 1;
             if (format_ == table_format::row_oriented) {
-                read_keyword("NAXIS2", nrow);
+                nrow = row_count_();
                 if (naxis == 1 && axes[naxis-1] == 1 && type != TSTRING) {
                     axes[naxis-1] = nrow;
                 } else {
-- 
2.43.0


From 2de787e54396798d4a97aea25bace37e59792ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:29 +0000
Subject: [PATCH 089/209] fix: updating the only column of a row-oriented FITS
 table kept the rows in excess

---
 include/vif/io/fits/table.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index c357c41..5a3be40 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1348,6 +1348,18 @@ namespace fits {
             );
             fits::vif_check_cfitsio(status_, "could not create column '"+tcolname+"'");
 
+            // If row-oriented and this replaces the only column of the table,
+            // make sure that rows in excess are removed
+            if (cid == 1 && format_ == table_format::row_oriented) {
+                long nrow;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
+                if (uint_t(nrow) > ndrow) {
+                    fits_delete_rows(fptr_, ndrow+1, nrow-ndrow, &status_);
+                    fits::vif_check_cfitsio(status_, "could not remove rows in HDU");
+                }
+            }
+
             // Set TDIM keyword (if needed)
             write_column_write_tdim_(tcolname, cid, dims);
         }
-- 
2.43.0


From 4551921df1f6b8646e9b44f3b84658c05c753388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 090/209] fix: parse_header() continued values that are not
 continued strings, and lost spaces in continued strings

---
 include/vif/io/fits/base.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 9c0759d..8a1a224 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -986,11 +986,11 @@ namespace fits {
             } else if (lines[i].find("CONTINUE ") == 0 && !keys.empty()) {
                 auto& k = keys.back();
                 std::string right = trim(lines[i].substr(9));
-                if (!right.empty() && right[0] == '\'') {
+                if (ends_with(k.value, "&'") && !right.empty() && right[0] == '\'') {
                     auto p2 = impl::fits_impl::find_closing_quote(right, 0);
                     std::string val;
                     if (p2 != std::string::npos) {
-                        val = trim(right.substr(1, p2-1));
+                        val = right.substr(1, p2-1);
                         k.comment = trim(right.substr(p2+1));
                     } else {
                         val = trim(right);
@@ -1004,10 +1004,6 @@ namespace fits {
                     if (!k.value.empty() && k.value.back() == '&') {
                         k.value = k.value.substr(0, k.value.size()-1);
                     }
-                    if (!val.empty() && val.back() == '&') {
-                        val = val.substr(0, val.size()-1);
-                    }
-
                     k.value = '\''+k.value+val+'\'';
                 } else {
                     // Don't know what to do, just ignore
-- 
2.43.0


From e951985d345f778dc20d6d5a4c309f796a8a4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:24 +0000
Subject: [PATCH 091/209] fix: reading information about a FITS column wrote
 past the end of a local variable

---
 include/vif/io/fits/table.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 5a3be40..64c9271 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -163,9 +163,9 @@ namespace fits {
             ci.column_id = c;
 
             char name[80];
-            char type = 0;
+            char type_name[80] = {0};
             long repeat = 0;
-            fits_get_bcolparms(fptr_, c, name, nullptr, &type, &repeat,
+            fits_get_bcolparms(fptr_, c, name, nullptr, type_name, &repeat,
                 nullptr, nullptr, nullptr, nullptr, &status_);
             fits::vif_check_cfitsio(status_, "could not read parameters of column "+to_string(c)+" in HDU");
 
@@ -181,6 +181,7 @@ namespace fits {
 
             ci.name = trim(ci.name);
 
+            char type = type_name[0];
             switch (type) {
             case 'A' : {
                 ci.type = column_info::string;
-- 
2.43.0


From a5f6e75ca7f9c3f694cad5ca68276912041bdf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:32 +0000
Subject: [PATCH 092/209] fix: FITS files were left open if they could not be
 opened as an image or a table

---
 include/vif/io/fits/base.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 8a1a224..c692007 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -412,12 +412,24 @@ namespace impl {
                             break;
                     }
 
+                    if (status_ != 0) {
+                        // CFITSIO may leave the file open if no suitable HDU is found
+                        int status = status_;
+                        close();
+                        status_ = status;
+                    }
+
                     fits::vif_check_cfitsio(status_, "cannot open file '"+filename+"'");
                 }
 
                 filename_ = filename;
 
-                update_internal_state();
+                try {
+                    update_internal_state();
+                } catch (...) {
+                    close();
+                    throw;
+                }
             }
 
             void close() noexcept {
-- 
2.43.0


From ab9b97ddd1375262f0546022e1d3684d74887288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 093/209] fix: qxmatch with few sources falls back to the
 exhaustive search

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..e956221 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -224,7 +224,7 @@ namespace astro {
         if (!params.brute_force && ra2.size() < 10) {
             // The bucket algorithm was requested, but there are too few objects to
             // cross match to. The brute force algorithm is likely to be the fastest.
-            params.brute_force = false;
+            params.brute_force = true;
         }
 
         if (!params.brute_force) {
-- 
2.43.0


From 14675f3457f54e9da0c4d568dcb95eb993a3d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 094/209] fix: qxmatch visits each bucket once, and reaches the
 corners of the field

---
 include/vif/astro/qxmatch.hpp | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index e956221..bc11125 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -53,7 +53,7 @@ namespace impl {
             std::size_t          max_depth;
 
             depth_cache(uint_t nx, uint_t ny, double cs) : csize(cs),
-                max_depth(std::max(nx, ny)) {
+                max_depth(ceil(sqrt(sqr(double(nx)) + sqr(double(ny)))) + 1) {
 
                 visited = vec2b(nx, ny);
                 depths.reserve(20);
@@ -67,7 +67,7 @@ namespace impl {
                 visited(0,0) = true;
 
                 // Generate a few in advance
-                for (uint_t d : range(std::min(uint_t{9}, std::max(nx, ny)-1))) {
+                for (uint_t d : range(std::min(uint_t{9}, max_depth-1))) {
                     grow();
                 }
             }
@@ -87,8 +87,7 @@ namespace impl {
             }
 
             void grow() {
-                vif_check(depths.size() < visited.dims[0] ||
-                    depths.size() < visited.dims[1], "cannot grow past the size of the "
+                vif_check(depths.size() < max_depth, "cannot grow past the size of the "
                     "bucket field (", visited.dims, "; trying to reach ", depths.size(), ")");
 
                 depths.push_back(depth_t{});
@@ -103,10 +102,9 @@ namespace impl {
                 // can be deduced by symmetry.
                 for (uint_t x : range(std::min(d+1, visited.dims[0])))
                 for (uint_t y : range(std::min(d+1, visited.dims[1]))) {
-                    double dist2 = sqr(csize)*min(vec1d{
-                        sqr(x-0.5) + sqr(y-0.5), sqr(x+0.5) + sqr(y-0.5),
-                        sqr(x+0.5) + sqr(y+0.5), sqr(x-0.5) + sqr(y+0.5)
-                    });
+                    // Distance of the closest point of this bucket
+                    double dist2 = sqr(csize)*(
+                        sqr(std::max(0.0, x-0.5)) + sqr(std::max(0.0, y-0.5)));
 
                     if (dist2 <= sqr(depth.max_dist) && !visited(x, y)) {
                         depth.bx.push_back(x);
@@ -116,14 +114,24 @@ namespace impl {
                 }
 
                 // We have (+x,+y), fill the other 3 quadrants:
-                // (-x,+y), (-x,-y), (-x,+y)
-                vec1u idnew = indgen<uint_t>(depth.bx.size());
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, depth.by[idnew]);
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
-                append(depth.bx, depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
+                // (-x,+y), (-x,-y), (+x,-y), without repeating the buckets on the axes
+                uint_t nnew = depth.bx.size();
+                for (uint_t i : range(nnew)) {
+                    int_t x = depth.bx[i];
+                    int_t y = depth.by[i];
+                    if (x != 0) {
+                        depth.bx.push_back(-x);
+                        depth.by.push_back(y);
+                    }
+                    if (x != 0 && y != 0) {
+                        depth.bx.push_back(-x);
+                        depth.by.push_back(-y);
+                    }
+                    if (y != 0) {
+                        depth.bx.push_back(x);
+                        depth.by.push_back(-y);
+                    }
+                }
             }
         };
     }
-- 
2.43.0


From 78f7dc9661725f5fb2b2c42f69f20fa9c0a274d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 095/209] fix: qxmatch bucket search never misses the nearest
 neighbour (sky curvature, RA wrap, degenerate fields)

---
 include/vif/astro/qxmatch.hpp | 127 +++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 55 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index bc11125..1979fc2 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -188,15 +188,6 @@ namespace astro {
             dcdec2 = cos(ddec2);
         }
 
-        auto true_distance = [&](double x1, double y1, double x2, double y2) {
-            // Function to provide the distance between two points.
-            if (params.linear) {
-                return sqrt(sqr(x2 - x1) + sqr(y2 - y1));
-            } else {
-                return angdist(x1, y1, x2, y2);
-            }
-        };
-
         auto distance_proxy = [&](uint_t i, uint_t j) {
             // Function to provide a distance *indicator*.
             // Note that this is not the 'true' distance, but this it is sufficient
@@ -211,15 +202,6 @@ namespace astro {
             }
         };
 
-        auto true_to_proxy = vectorize_lambda([&](double dist) {
-            // Function to convert a "true" distance into the "proxy" distance
-            // used by "distance_proxy".
-            if (params.linear) {
-                return sqr(dist);
-            } else {
-                return sqr(sin(dist/(3600.0*(180.0/dpi)*2)));
-            }
-        });
         auto proxy_to_true = vectorize_lambda([&](double dist) {
             // Function to convert a "proxy" distance into the "true" distance.
             if (params.linear) {
@@ -235,44 +217,71 @@ namespace astro {
             params.brute_force = true;
         }
 
+        // Coordinates in which the buckets are built
+        vec1d fra1 = ra1, fra2 = ra2;
+        double fra_range = 0.0;
+        auto get_ra_range = [&]() {
+            return std::max(max(fra1), max(fra2)) - std::min(min(fra1), min(fra2));
+        };
+
+        if (!params.brute_force) {
+            fra_range = get_ra_range();
+            if (!params.linear && fra_range >= 180.0) {
+                // The buckets do not wrap around, try to find a range of RA where they don't
+                // have to
+                for (auto* v : {&fra1, &fra2})
+                for (double& a : *v) {
+                    a -= 360.0*round(a/360.0);
+                }
+
+                fra_range = get_ra_range();
+                if (fra_range >= 180.0) {
+                    params.brute_force = true;
+                }
+            }
+        }
+
         if (!params.brute_force) {
             // Get bounds of the fields
-            vec1d rra1  = {min(ra1),  max(ra1)};
-            vec1d rra2  = {min(ra2),  max(ra2)};
+            vec1d rra1  = {min(fra1), max(fra1)};
+            vec1d rra2  = {min(fra2), max(fra2)};
             vec1d rdec1 = {min(dec1), max(dec1)};
             vec1d rdec2 = {min(dec2), max(dec2)};
 
             vec1d rra  = {std::min(rra1[0],  rra2[0]),  std::max(rra1[1],  rra2[1])};
             vec1d rdec = {std::min(rdec1[0], rdec2[0]), std::max(rdec1[1], rdec2[1])};
 
-            // Choose a bucket size (arcsec)
+            // Be careful that RA and Dec are spherical coordinates.
+            // The buckets are built in flat coordinates (arcsec), for which the flat distance
+            // times 'flat_ratio' never exceeds the proxy of the true distance.
+            double scale_ra = 1.0, scale_dec = 1.0, flat_ratio = 1.0;
+            if (!params.linear) {
+                scale_ra = 3600.0*std::max(0.0, std::min(min(dcdec1), min(dcdec2)));
+                scale_dec = 3600.0;
+
+                double max_angle = 0.5*std::max(fra_range, rdec[1] - rdec[0])*dpi/180.0;
+                flat_ratio = 0.5*(dpi/180.0/3600.0)*
+                    (max_angle > 0.0 ? sin(max_angle)/max_angle : 1.0);
+            }
+
+            // Choose a bucket size
             const double overgrowth = 10.0;
             uint_t nc2 = ceil(0.5*sqrt(dpi*ra2.size()/nth/overgrowth));
-            vec1d hx = vec1d{rra2[0],  rra2[0],  rra2[1],  rra2[1]};
-            vec1d hy = vec1d{rdec2[0], rdec2[1], rdec2[0], rdec2[1]};
-
-            double cell_size = params.linear ? sqrt((rra2[1] - rra2[0])*(rdec2[1] - rdec2[0])) :
-                std::max(3600.0*sqrt(field_area_hull(hx, hy))/nc2, 1.0);
-
-            // Be careful that RA and Dec are spherical coordinates
-            double dra, ddec;
-            if (params.linear) {
-                dra = cell_size;
-                ddec = cell_size;
-            } else {
-                dra = cell_size/abs(cos(mean(rdec2)*dpi/180.0))/3600.0;
-                ddec = cell_size/3600.0;
+            double wx = (rra[1]  - rra[0])*scale_ra;
+            double wy = (rdec[1] - rdec[0])*scale_dec;
+            double cell_size = sqrt((rra2[1] - rra2[0])*scale_ra)*
+                sqrt((rdec2[1] - rdec2[0])*scale_dec)/nc2;
+
+            // Make sure we do not build more buckets than there are sources
+            cell_size = std::max(cell_size, sqrt(wx/(n1+n2))*sqrt(wy));
+            cell_size = std::max(cell_size, std::max(wx, wy)/(n1+n2));
+            if (cell_size <= 0.0) {
+                cell_size = 1.0;
             }
 
-            // Add some padding to prevent border issues
-            rra[0]  -= dra;
-            rra[1]  += dra;
-            rdec[0] -= ddec;
-            rdec[1] += ddec;
-
             // Final number of buckets
-            uint_t nra  = (rra[1]  - rra[0])/dra;
-            uint_t ndec = (rdec[1] - rdec[0])/ddec;
+            uint_t nra  = uint_t(wx/cell_size) + 1;
+            uint_t ndec = uint_t(wy/cell_size) + 1;
 
             // Build the buckets
             struct bucket_t {
@@ -283,14 +292,18 @@ namespace astro {
             vec<2,bucket_t> buckets(nra, ndec);
 
             // Fill the buckets
-            vec1u idx1 = floor((ra1 - rra[0])/dra);
-            vec1u idy1 = floor((dec1 - rdec[0])/ddec);
+            vec1d fx1 = (fra1 - rra[0])*(scale_ra/cell_size);
+            vec1d fy1 = (dec1 - rdec[0])*(scale_dec/cell_size);
+            vec1u idx1 = min(vec1u(floor(fx1)), nra-1);
+            vec1u idy1 = min(vec1u(floor(fy1)), ndec-1);
             for (uint_t i : range(ra1)) {
                 buckets(idx1[i],idy1[i]).ids1.push_back(i);
             }
 
-            vec1u idx2 = floor((ra2 - rra[0])/dra);
-            vec1u idy2 = floor((dec2 - rdec[0])/ddec);
+            vec1d fx2 = (fra2 - rra[0])*(scale_ra/cell_size);
+            vec1d fy2 = (dec2 - rdec[0])*(scale_dec/cell_size);
+            vec1u idx2 = min(vec1u(floor(fx2)), nra-1);
+            vec1u idy2 = min(vec1u(floor(fy2)), ndec-1);
             for (uint_t j : range(ra2)) {
                 buckets(idx2[j],idy2[j]).ids2.push_back(j);
             }
@@ -303,8 +316,8 @@ namespace astro {
                 int_t y0 = idy1[i];
 
                 // Compute the distance of this source from the bucket center
-                double cell_dist = true_distance(ra1[i], dec1[i],
-                    rra[0] + (x0+0.5)*dra, rdec[0] + (y0+0.5)*ddec);
+                double cell_dist = cell_size*sqrt(
+                    sqr(fx1[i] - (x0+0.5)) + sqr(fy1[i] - (y0+0.5)));
 
                 // Scan the buckets around this source until all neighbors are found
                 uint_t d = 0;
@@ -341,8 +354,10 @@ namespace astro {
                         }
                     }
 
-                    reached_distance = true_to_proxy(
-                        std::max(0.0, tdepths[d].max_dist - 1.1*cell_dist - 0.1*cell_size));
+                    // All the sources closer than this have been considered (keep a small
+                    // margin for rounding errors)
+                    reached_distance = sqr(flat_ratio*std::max(0.0,
+                        tdepths[d].max_dist - cell_dist - 1e-6*cell_size));
 
                     ++d;
                 } while (tres.d.safe(nth-1,i) > reached_distance && d < tdepths.size());
@@ -353,8 +368,8 @@ namespace astro {
                 int_t y0 = idy2[j];
 
                 // Compute the distance of this source from the bucket center
-                double cell_dist = true_distance(ra2[j], dec2[j],
-                    rra[0] + (x0+0.5)*dra, rdec[0] + (y0+0.5)*ddec);
+                double cell_dist = cell_size*sqrt(
+                    sqr(fx2[j] - (x0+0.5)) + sqr(fy2[j] - (y0+0.5)));
 
                 // Scan the buckets around this source until all neighbors are found
                 uint_t d = 0;
@@ -380,8 +395,10 @@ namespace astro {
                         }
                     }
 
-                    reached_distance = true_to_proxy(
-                        std::max(0.0, tdepths[d].max_dist - 1.1*cell_dist - 0.1*cell_size));
+                    // All the sources closer than this have been considered (keep a small
+                    // margin for rounding errors)
+                    reached_distance = sqr(flat_ratio*std::max(0.0,
+                        tdepths[d].max_dist - cell_dist - 1e-6*cell_size));
 
                     ++d;
                 } while (tres.rd[j] > reached_distance && d < tdepths.size());
-- 
2.43.0


From 39bca09d0965b5b238039a76ad07d3ea4cdd8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 096/209] fix: qxmatch reports an infinite distance for missing
 neighbours, and a finite one for antipodal sources

---
 include/vif/astro/qxmatch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 1979fc2..f7905ff 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -207,7 +207,8 @@ namespace astro {
             if (params.linear) {
                 return sqrt(dist);
             } else {
-                return 3600.0*(180.0/dpi)*2*asin(sqrt(dist));
+                if (!is_finite(dist)) return dist;
+                return 3600.0*(180.0/dpi)*2*asin(sqrt(std::min(dist, 1.0)));
             }
         });
 
-- 
2.43.0


From 23a5b47bc5ba1fc1d455522934286d108d9f689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 097/209] fix: qxmatch with more threads than sources

---
 include/vif/astro/qxmatch.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index f7905ff..b172dd0 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -502,12 +502,14 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg1[t]-_-(tend1[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tbeg1[t] != tend1[t]) {
+                        auto ids = tbeg1[t]-_-(tend1[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
-                    if (!params.no_mirror) {
-                        ids = tbeg2[t]-_-(tend2[t]-1);
+                    if (!params.no_mirror && tbeg2[t] != tend2[t]) {
+                        auto ids = tbeg2[t]-_-(tend2[t]-1);
                         res.rid.safe[ids] = vres[t].rid.safe[ids];
                         res.rd.safe[ids] = vres[t].rd.safe[ids];
                     }
@@ -611,9 +613,11 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg[t]-_-(tend[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tbeg[t] != tend[t]) {
+                        auto ids = tbeg[t]-_-(tend[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
                     if (!params.no_mirror) {
                         if (t == 0) {
@@ -621,7 +625,7 @@ namespace astro {
                             res.rd = vres[t].rd;
                         } else {
                             for (uint_t j = 0; j < n2; ++j) {
-                                if (res.rd.safe[j] >= vres[t].rd.safe[j]) {
+                                if (res.rd.safe[j] > vres[t].rd.safe[j]) {
                                     res.rid.safe[j] = vres[t].rid.safe[j];
                                     res.rd.safe[j] = vres[t].rd.safe[j];
                                 }
-- 
2.43.0


From 55d929a8775bd4f9323b65c6610e00619f77d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 098/209] fix: qxmatch mirror match of a catalog with itself,
 xmatch_clean_best with missing neighbours

---
 include/vif/astro/qxmatch.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index b172dd0..2e2df97 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -636,6 +636,14 @@ namespace astro {
             }
         }
 
+        if (params.self && !params.no_mirror) {
+            // Matching a catalog to itself is symmetric
+            for (uint_t j : range(n2)) {
+                res.rid.safe[j] = res.id.safe(0,j);
+                res.rd.safe[j] = res.d.safe(0,j);
+            }
+        }
+
         // Convert the distance estimator to a real distance
         res.d = proxy_to_true(res.d);
         if (!params.no_mirror) {
@@ -677,7 +685,7 @@ namespace astro {
         c.lost.data.reserve(ngal/6);
 
         for (uint_t i = 0; i < ngal; ++i) {
-            if (r.rid[r.id[i]] == i) {
+            if (r.id[i] < r.rid.size() && r.rid[r.id[i]] == i) {
                 c.id1.data.push_back(i);
                 c.id2.data.push_back(r.id[i]);
             } else {
-- 
2.43.0


From d59ea68feee52bc14577d4bfd24397391889959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 099/209] fix: qdist fills both halves of the distance matrix

---
 include/vif/astro/qxmatch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 2e2df97..8f59a77 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -738,7 +738,7 @@ namespace astro {
             double sra = sin(0.5*(dra.safe[j] - dra.safe[i]));
             double sde = sin(0.5*(ddec.safe[j] - ddec.safe[i]));
             double d = sde*sde + sra*sra*dcdec.safe[j]*dcdec.safe[i];
-            return 3600.0*(180.0/dpi)*2*asin(sqrt(d));
+            return 3600.0*(180.0/dpi)*2*asin(sqrt(std::min(d, 1.0)));
         };
 
         // When using a single thread, all the work is done in the main thread
@@ -746,6 +746,7 @@ namespace astro {
         for (uint_t i : range(n)) {
             for (uint_t j : range(i+1, n)) {
                 ret(j,i) = distance(i, j);
+                ret(i,j) = ret(j,i);
 
                 if (params.verbose) progress(p, 113);
             }
-- 
2.43.0


From 4514f5521b098501fe8d6931c1e193ac7b94e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:40 +0000
Subject: [PATCH 100/209] fix: qxmatch functions can be included in several
 translation units

---
 include/vif/astro/qxmatch.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 8f59a77..ee218e4 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -17,11 +17,11 @@ namespace astro {
     };
 
     #ifndef NO_CFITSIO
-    void qxmatch_save(const std::string& file, const qxmatch_res& r) {
+    inline void qxmatch_save(const std::string& file, const qxmatch_res& r) {
         fits::write_table(file, ftable(r.id, r.d, r.rid, r.rd));
     }
 
-    qxmatch_res qxmatch_restore(const std::string& file) {
+    inline qxmatch_res qxmatch_restore(const std::string& file) {
         qxmatch_res r;
         fits::read_table(file, ftable(r.id, r.d, r.rid, r.rd));
         return r;
@@ -676,7 +676,7 @@ namespace astro {
         vec1u lost;
     };
 
-    id_pair xmatch_clean_best(const qxmatch_res& r) {
+    inline id_pair xmatch_clean_best(const qxmatch_res& r) {
         const uint_t ngal = r.id.dims[1];
 
         id_pair c;
@@ -700,14 +700,14 @@ namespace astro {
         return c;
     }
 
-    void xmatch_check_lost(const id_pair& p) {
+    inline void xmatch_check_lost(const id_pair& p) {
         if (!p.lost.empty()) {
             warning(p.lost.size(), " sources failed to cross match");
         }
     }
 
     #ifndef NO_CFITSIO
-    void xmatch_save_lost(const id_pair& p, const std::string& save) {
+    inline void xmatch_save_lost(const id_pair& p, const std::string& save) {
         if (!p.lost.empty()) {
             warning(p.lost.size(), " sources failed to cross match");
             fits::write_table(save, ftable(p.lost));
-- 
2.43.0


From eceb5726e95edd07dad0c83c7e83244cff80f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 101/209] fix: integer image translation larger than the image,
 and shift of empty images

---
 include/vif/astro/image.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..8a0d56d 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -260,6 +260,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
@@ -290,8 +292,10 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        // Shifting by more than the size of the image moves everything out
+        tsx = clamp(-tsx, -int_t(v.dims[0]), int_t(v.dims[0]));
+        tsy = clamp(-tsy, -int_t(v.dims[1]), int_t(v.dims[1]));
+        if (v.empty()) return;
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From 8bc2d728cef3a225f726da9e4f4623c1cdc19504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 102/209] fix: circular_mask of empty images, and of circles
 touching the first row or column

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 8a0d56d..bf9059e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -365,7 +365,7 @@ namespace astro {
         vif_check(radius >= 0, "radius must be a positive number");
 
         // Identify the needed region
-        if (x+radius > 0 && y+radius > 0) {
+        if (!m.empty() && x+radius >= -0.5 && y+radius >= -0.5) {
             uint_t x0 = floor(x - radius) > 0         ? floor(x - radius) : 0;
             uint_t y0 = floor(y - radius) > 0         ? floor(y - radius) : 0;
             uint_t x1 = ceil(x + radius)  < dims[0]-1 ? ceil(x + radius)  : dims[0]-1;
-- 
2.43.0


From d7fe2fb8fc5b11f945fdb16cc8a6a3e38294ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 103/209] fix: radial_profile confused the radius and the
 center of the aperture

---
 include/vif/astro/image.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index bf9059e..51068be 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -396,10 +396,12 @@ namespace astro {
         vec<1, meta::rtype_t<Type>> res(npix);
         uint_t hsx = img.dims[0]/2;
         uint_t hsy = img.dims[1]/2;
+        if (npix == 0) return res;
+
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, hsx, hsy)*
+                (1.0 - circular_mask(img.dims, i-1, hsx, hsy));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From eadd2b374b9d45c6dfcd8f42a025e51009288a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 104/209] fix: convolve2d_naive wrote out of bounds with
 kernels larger than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 51068be..cc7efa6 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -449,9 +449,9 @@ namespace astro {
             if (kw == 0.0) continue;
 
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
-            uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
+            uint_t xn = map.dims[0] - std::min(map.dims[0], kx >= hxsize ? kx-hxsize : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-            uint_t yn = map.dims[1] - (ky >= hysize ? ky-hysize : 0);
+            uint_t yn = map.dims[1] - std::min(map.dims[1], ky >= hysize ? ky-hysize : 0);
 
             for (uint_t x = x0; x < xn; ++x)
             for (uint_t y = y0; y < yn; ++y) {
-- 
2.43.0


From b8c1efa918d194056847bd1d3a34e35e6194dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 105/209] fix: convolve2d ignored the last row and column of
 kernels with odd dimensions

---
 include/vif/astro/image.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index cc7efa6..7c4f585 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -526,21 +526,11 @@ namespace astro {
         // Resize kernel to map size, with kernel center at (0,0)
         vec2d tkernel(tmap.dims);
 
-        // TODO: optimize this and catch case where kernel is larger than image
-        vec1u px1 = hsx + indgen<uint_t>(hsx);
-        vec1u py1 = hsy + indgen<uint_t>(hsy);
-        vec1u px2 = hsx - 1 - indgen<uint_t>(hsx);
-        vec1u py2 = hsy - 1 - indgen<uint_t>(hsy);
-
-        vec1u ix1 = indgen<uint_t>(hsx);
-        vec1u iy1 = indgen<uint_t>(hsy);
-        vec1u ix2 = tmap.dims[0] - 1 - indgen<uint_t>(hsx);
-        vec1u iy2 = tmap.dims[1] - 1 - indgen<uint_t>(hsy);
-
-        tkernel(ix1,iy1) = kernel(px1,py1);
-        tkernel(ix2,iy1) = kernel(px2,py1);
-        tkernel(ix1,iy2) = kernel(px1,py2);
-        tkernel(ix2,iy2) = kernel(px2,py2);
+        for (uint_t kx : range(kernel.dims[0]))
+        for (uint_t ky : range(kernel.dims[1])) {
+            tkernel.safe((kx + tmap.dims[0] - hsx) % tmap.dims[0],
+                (ky + tmap.dims[1] - hsy) % tmap.dims[1]) = kernel.safe(kx,ky);
+        }
 
         // Perform the convolution in Fourier space
         auto cimg = fft(tmap)*fft(tkernel);
-- 
2.43.0


From 044b615c8a7f3da8b93378b943f229db0e376bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 106/209] fix: convolver2d kept a reference to a temporary
 kernel and destroyed its plans twice when moved

---
 include/vif/astro/image.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 7c4f585..c57039f 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -542,7 +542,7 @@ namespace astro {
 
 #ifndef NO_FFTW
     struct convolver2d {
-        const vec2d& kernel_normal;
+        vec2d kernel_normal;
         vec2cd kernel_fourier;
         uint_t hsx = 0, hsy = 0;
         fftw_plan pf, pi;
@@ -559,20 +559,31 @@ namespace astro {
 
         convolver2d(const convolver2d&) = delete;
         convolver2d& operator=(const convolver2d&) = delete;
-        convolver2d(convolver2d&&) = default;
-        convolver2d& operator=(convolver2d&&) = default;
+        convolver2d& operator=(convolver2d&&) = delete;
+
+        convolver2d(convolver2d&& c) : kernel_normal(std::move(c.kernel_normal)),
+            cyclic(c.cyclic) {
+            // The plans will be rebuilt when needed
+            c.release_plans();
+        }
 
         ~convolver2d() {
+            release_plans();
+        }
+
+    private :
+        void release_plans() {
             std::lock_guard<std::mutex> lock(impl::fftw_planner_mutex());
             if (pf_built) {
                 fftw_destroy_plan(pf);
+                pf_built = false;
             }
             if (pi_built) {
                 fftw_destroy_plan(pi);
+                pi_built = false;
             }
         }
 
-    private :
         void make_plan(const vec2d& v, vec2cd& r) {
             if (!pf_built) {
                 std::lock_guard<std::mutex> lock(impl::fftw_planner_mutex());
-- 
2.43.0


From f6dc0b7e0fb08fc0265e0330100e795b6dd32210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 107/209] fix: convolver2d with non-square maps, maps of
 varying dimensions, and normalisation of cyclic maps

---
 include/vif/astro/image.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c57039f..c9cd6ac 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -550,6 +550,8 @@ namespace astro {
         vec2d tmap;
         vec2cd cimg;
 
+        std::array<uint_t,2> map_dims = {{0, 0}};
+
         bool cyclic = false;
 
         explicit convolver2d(const vec2d& k) : kernel_normal(k) {
@@ -638,7 +640,10 @@ namespace astro {
 
     public :
         void inplace_convolve(vec2d& map) {
-            if (kernel_fourier.empty()) {
+            if (kernel_fourier.empty() || map.dims != map_dims) {
+                release_plans();
+                map_dims = map.dims;
+
                 if (cyclic) {
                     hsx = 0; hsy = 0;
 
@@ -680,10 +685,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
@@ -708,6 +713,7 @@ namespace astro {
             if (cyclic) {
                 // Copy image data
                 map = std::move(tmap);
+                map /= cimg.size();
             } else {
                 // Copy image data and shrink back to original dimensions
                 for (uint_t ix : range(map.dims[0]))
-- 
2.43.0


From 2d575b5ce995918e1a7d582f5bdd156bbc80aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 108/209] fix: make_transition_kernel divided the wrong
 frequencies and was not normalised

---
 include/vif/astro/image.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c9cd6ac..f3e0a20 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -756,8 +756,12 @@ namespace astro {
 #else
         vec2cd cfrom = fft(from);
         vec2cd cto = fft(to);
-        cto(_-(cfrom.dims[1]/2),_) /= cfrom(_-(cfrom.dims[1]/2),_);
-        return shift(ifft(cto), cfrom.dims[0]/2, cfrom.dims[1]/2);
+        // Only the first half of the Fourier transform is computed
+        for (uint_t i : range(cfrom.dims[0]*(cfrom.dims[1]/2 + 1))) {
+            cto.safe[i] /= cfrom.safe[i];
+        }
+
+        return shift(ifft(cto), cfrom.dims[0]/2, cfrom.dims[1]/2)/cto.size();
 #endif
     }
 
-- 
2.43.0


From 004ef96992cebd748eb7f910da8ad4cfda38fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 109/209] fix: boxcar read out of bounds when the box is larger
 than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index f3e0a20..d6b7342 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -773,9 +773,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x + hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y + hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From 06d326ca240992ea0e4c23015f0cddb48940b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 110/209] fix: segment and foreach_segment counted some pixels
 several times

---
 include/vif/astro/image.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d6b7342..a1d3fd3 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -879,6 +879,7 @@ namespace astro {
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
+            visited[mids[s]] = curseg;
 
             while (!ox.empty()) {
                 vec1u tox = std::move(ox), toy = std::move(oy);
@@ -924,6 +925,12 @@ namespace astro {
 
         uint_t id = params.first_id;
 
+        out.id.clear();
+        out.area.clear();
+        out.px.clear();
+        out.py.clear();
+        out.origin.clear();
+
         std::vector<uint_t> oy, ox;
         for (uint_t y : range(map.dims[0]))
         for (uint_t x : range(map.dims[1])) {
@@ -948,6 +955,8 @@ namespace astro {
 
                 auto check_add = [&ox,&oy,&map,&out](uint_t tty, uint_t ttx) {
                     if (map.safe(tty,ttx) != 0) {
+                        // Set to zero now to avoid adding it twice
+                        map.safe(tty,ttx) = 0;
                         out.area.back() += 1u;
                         out.px.back() += ttx;
                         out.py.back() += tty;
-- 
2.43.0


From ed3d5c9790859a12d4a67b093dd06c53c803e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 111/209] fix: segment_deblend counted the peak pixel twice,
 ignored the faintest pixel, and appended to its output

---
 include/vif/astro/image.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index a1d3fd3..f9ceaf8 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1050,6 +1050,9 @@ namespace astro {
 
         vif_check(params.first_id > 0, "first ID must be > 0");
 
+        out = segment_deblend_output{};
+        if (img.empty()) return seg;
+
         vec2u visited(img.dims);
         vec1u ox, oy;
 
@@ -1065,8 +1068,8 @@ namespace astro {
 
         auto explore_neighbors = [&](uint_t ty, uint_t tx) {
             auto check_add = [&](uint_t tty, uint_t ttx) {
-                if (visited.safe(tty,ttx) != ipos) {
-                    visited.safe(tty,ttx) = ipos;
+                if (visited.safe(tty,ttx) != ipos+1) {
+                    visited.safe(tty,ttx) = ipos+1;
                     ox.push_back(ttx);
                     oy.push_back(tty);
                 }
@@ -1093,14 +1096,14 @@ namespace astro {
 
         uint_t id = params.first_id;
 
-        while (img[mid] >= params.detect_threshold && ipos > 0) {
+        while (img[mid] >= params.detect_threshold) {
             // Check neighboring pixels within the deblend threshold if one of them
             // already has been segmented, and if so give this pixel to that segment
             vec1u tmid = mult_ids(img, mid);
             ox.clear(); oy.clear();
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
-            visited[mid] = ipos;
+            visited[mid] = ipos+1;
 
             uint_t neib_seg = 0;
             double closest = dinf;
@@ -1140,6 +1143,8 @@ namespace astro {
                 ++id;
             }
 
+            if (ipos == 0) break;
+
             --ipos;
             mid = sid[ipos];
         }
@@ -1181,6 +1186,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1237,6 +1243,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From dbed057cbc147629ca2731a41fa231583d84d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 112/209] fix: segment_distance gave pixels to a segment which
 is not the closest

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index f9ceaf8..c628fc5 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1393,7 +1393,7 @@ namespace astro {
                         double nd = sqr(double(tty) - oy) + sqr(double(ttx) - ox);
 
                         if (dmap.safe(tty,ttx) > nd) {
-                            map.safe(tty,ttx) = state.id;
+                            map.safe(tty,ttx) = map.safe(ty,tx);
                             imap.safe(tty,ttx) = imap.safe(ty,tx);
                             dmap.safe(tty,ttx) = nd;
                             state.oy.push_back(tty);
-- 
2.43.0


From d9a68c8e482d9c9871ceb56f6b8538b91435c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:08 +0000
Subject: [PATCH 113/209] fix: angdist and angdistr returned NaN for some
 antipodal positions

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..03c4afb 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -25,7 +25,7 @@ namespace astro {
     inline double angdistr(double ra1, double dec1, double ra2, double dec2) {
         double sra = sin(0.5*(ra2 - ra1));
         double sde = sin(0.5*(dec2 - dec1));
-        return 2.0*asin(sqrt(sde*sde + sra*sra*cos(dec2)*cos(dec1)));
+        return 2.0*asin(sqrt(std::min(1.0, sde*sde + sra*sra*cos(dec2)*cos(dec1))));
     }
 
     // Compute the angular distance between two RA/Dec positions [arcsec].
@@ -35,7 +35,7 @@ namespace astro {
         double ra1 = d2r*tra1, ra2 = d2r*tra2, dec1 = d2r*tdec1, dec2 = d2r*tdec2;
         double sra = sin(0.5*(ra2 - ra1));
         double sde = sin(0.5*(dec2 - dec1));
-        return 3600.0*2.0*asin(sqrt(sde*sde + sra*sra*cos(dec2)*cos(dec1)))/d2r;
+        return 3600.0*2.0*asin(sqrt(std::min(1.0, sde*sde + sra*sra*cos(dec2)*cos(dec1))))/d2r;
     }
 
     // Compute the angular distance between two RA/Dec positions [arcsec].
-- 
2.43.0


From 29777d9794e57df1b43dec820192ac20301e28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:08 +0000
Subject: [PATCH 114/209] fix: angdist_less was wrong for negative radii and
 for radii larger than half the sky

---
 include/vif/astro/astro.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 03c4afb..8493fa6 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -84,7 +84,8 @@ namespace astro {
 
         const double d2r = dpi/180.0;
         const double rrad = d2r*radius/3600.0;
-        const double crad = sqr(sin(rrad/2.0));
+        // The separation is always between 0 and 180 degrees
+        const double crad = (rrad <= 0.0 ? 0.0 : rrad > dpi ? dinf : sqr(sin(rrad/2.0)));
 
         vec<N,bool> res(tra1.dims);
         for (uint_t i : range(tra1)) {
-- 
2.43.0


From 9cc2daefad9edbc98cc0db2b340718583fe53208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:08 +0000
Subject: [PATCH 115/209] fix: normalize_coordinates never returned for
 infinite or very large coordinates

---
 include/vif/astro/astro.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 8493fa6..a04fd0a 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -137,20 +137,28 @@ namespace astro {
     template<typename T, typename U, typename enable = typename std::enable_if<
         !meta::is_vec<T>::value && !meta::is_vec<U>::value>::type>
     void normalize_coordinates(T& ra, U& dec) {
-        while (dec > 90.0) {
-            dec = 180.0 - dec;
-            ra += 180.0;
-        }
-        while (dec < -90.0) {
-            dec = -180.0 - dec;
-            ra += 180.0;
-        }
+        if (!std::isfinite(ra) || !std::isfinite(dec)) return;
+
+        if (dec > 90.0 || dec < -90.0) {
+            dec = fmod(dec, 360.0);
+            if (dec > 180.0) {
+                dec -= 360.0;
+            } else if (dec < -180.0) {
+                dec += 360.0;
+            }
 
-        while (ra > 360.0) {
-            ra -= 360.0;
+            if (dec > 90.0) {
+                dec = 180.0 - dec;
+                ra += 180.0;
+            } else if (dec < -90.0) {
+                dec = -180.0 - dec;
+                ra += 180.0;
+            }
         }
-        while (ra < 0.0) {
-            ra += 360.0;
+
+        if (ra > 360.0 || ra < 0.0) {
+            ra = fmod(ra, 360.0);
+            if (ra < 0.0) ra += 360.0;
         }
     }
 
-- 
2.43.0


From 52183ba1ba3cead7be59d577fd135897e89a4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 116/209] fix: vernal_angle had the wrong sign for RA > 180 and
 could return NaN

---
 include/vif/astro/astro.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index a04fd0a..afeda13 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -181,9 +181,10 @@ namespace astro {
         dec *= dpi/180;
 
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
-        double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
+        double s = sin(dec)/(2*(sqrt(p-p*p)));
+        double e = (180/dpi)*asin(std::max(-1.0, std::min(1.0, s)));
 
-        if (ra > 180.0) e = -e;
+        if (sin(ra) < 0.0) e = -e;
 
         return e;
     }
-- 
2.43.0


From 13725f1b39186689accd9126aabb1774dff27328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 117/209] fix: angrot_vernal could return NaN declinations
 close to the poles

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index afeda13..6f815ca 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -213,7 +213,7 @@ namespace astro {
         auto y2 = ce*y1 - se*z1;
         auto z2 = ce*z1 + se*y1;
 
-        d2 = asin(z2);
+        d2 = atan2(z2, sqrt(x1*x1 + y2*y2));
         r2 = atan2(y2, x1);
 
         // Other solutions
-- 
2.43.0


From 27ac1b550b6e5cab456059ea196ad715d0f9a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 118/209] fix: sex2deg lost the sign of coordinates between -1
 and 0 degrees (or hours)

---
 include/vif/astro/astro.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6f815ca..c718dd8 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1057,8 +1057,9 @@ namespace astro {
             return false;
         }
 
-        double signr = sign(rah);
-        double signd = sign(dech);
+        // NB: the sign must be read from the string, since '-0' is not negative
+        double signr = (trim(starr1[0])[0] == '-' ? -1.0 : 1.0);
+        double signd = (trim(starr2[0])[0] == '-' ? -1.0 : 1.0);
 
         ra = (rah + ram*signr/60.0 + ras*signr/3600.0)*15.0;
         dec = dech + decm*signd/60.0 + decs*signd/3600.0;
-- 
2.43.0


From d1f93ed83aca5dca11d19e51256348ab649cde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 119/209] fix: deg2sex lost the sign of coordinates between -1
 and 0, and could write 60 seconds

---
 include/vif/astro/astro.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index c718dd8..4c6affa 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1087,19 +1087,34 @@ namespace astro {
 
     // Convert a set of degree coordinates into sexagesimal format ('hh:mm:ss.ms')
     inline void deg2sex(double ra, double dec, std::string& sra, std::string& sdec) {
-        double signr = sign(ra);
-        ra /= 15.0*signr;
+        bool negr = ra < 0;
+        ra = std::abs(ra)/15.0;
         int_t  rah = ra;
         int_t  ram = (ra - rah)*60.0;
         double ras = ((ra - rah)*60 - ram)*60;
-        rah *= signr;
 
-        double signd = sign(dec);
-        dec *= signd;
+        bool negd = dec < 0;
+        dec = std::abs(dec);
         int_t  dech = dec;
         int_t  decm = (dec - dech)*60.0;
         double decs = ((dec - dech)*60 - decm)*60;
-        dech *= signd;
+
+        // Seconds are printed with a finite number of digits: make sure they are never printed
+        // as '60', or using the scientific notation
+        auto carry = [](int_t& deg, int_t& min, double& sec) {
+            if (sec < 1e-4) sec = (sec < 5e-5 ? 0.0 : 1e-4);
+            if (sec >= 59.99995) {
+                sec = 0.0;
+                ++min;
+            }
+            if (min >= 60) {
+                min -= 60;
+                ++deg;
+            }
+        };
+
+        carry(rah, ram, ras);
+        carry(dech, decm, decs);
 
         auto format_sec = [](double sec) {
             std::string s = to_string(sec);
@@ -1119,8 +1134,8 @@ namespace astro {
             }
         };
 
-        sra = to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
-        sdec = to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
+        sra = (negr ? "-" : "")+to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
+        sdec = (negd ? "-" : "")+to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
     }
 
     template<std::size_t Dim = 1, typename TSR = double, typename TSD = double,
-- 
2.43.0


From 5abe5c9b9cd107e05c3c5b866e14ecd8484d44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 120/209] fix: cosmology functions failed on large samples with
 at most one positive redshift

---
 include/vif/astro/astro.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 4c6affa..7bff449 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -412,11 +412,19 @@ namespace astro {
                 } \
                 return r; \
             } else { \
+                using rtype = meta::rtype_t<Type>; \
                 auto idz = where(z > 0); \
+                if (idz.empty()) { \
+                    return replicate(rtype(name(0.0, args...)), z.dims); \
+                } \
                 auto mi = min(z[idz]); \
                 auto ma = max(z[idz]); \
+                if (!(mi < ma)) { \
+                    vec<Dim,rtype> r = replicate(rtype(name(0.0, args...)), z.dims); \
+                    r[idz] = name(mi, args...); \
+                    return r; \
+                } \
                 auto tz = rgen_log(mi, ma, npt); \
-                using rtype = meta::rtype_t<Type>; \
                 vec<1,rtype> td(tz.dims); \
                 for (uint_t i : range(tz)) { \
                     td[i] = name(tz[i], args...); \
-- 
2.43.0


From 75844146356c26edd1e31d42224967d23a223195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 121/209] fix: mag2lsun could not be called

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 7bff449..19097f0 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -490,7 +490,7 @@ namespace astro {
     // Absolute magnitude [AB] to absolute luminosity [Lsun] using rest-frame wavelength
     // 'lam' [um]
     template<typename T, typename U>
-    auto mag2lsun(const T& lam, const T& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
+    auto mag2lsun(const T& lam, const U& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
         const double Mpc = 3.0856e22; // [m/Mpc]
         const double Lsol = 3.839e26; // [W/Lsol]
         const double uJy = 1.0e32;    // [uJy/(W.m-2.Hz-1)]
-- 
2.43.0


From e458bc3bef078e4e5a3e9bd1181fb62a2a27a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 122/209] fix: get_band with notes could not be called

---
 include/vif/astro/astro.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 19097f0..055c772 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1187,8 +1187,7 @@ namespace astro {
         return true;
     }
 
-    template<typename Cat>
-    bool get_band(const vec1s& bands, const vec1s& notes, const std::string& band,
+    inline bool get_band(const vec1s& bands, const vec1s& notes, const std::string& band,
         const std::string& note_, uint_t& bid) {
         vec1u id = where(regex_match(bands, band) && regex_match(notes, note_));
         if (id.empty()) {
-- 
2.43.0


From c4616ae4643d61cfffee437e98c7c451f5a12f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 123/209] fix: srcsub could not be called, psffit and srcsub
 swapped the axes of non-square PSFs

---
 include/vif/astro/astro.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 055c772..05ebf00 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -246,7 +246,7 @@ namespace astro {
         using err_type = typename vec<2,TypeE>::effective_type;
         static const auto max_error = std::numeric_limits<meta::rtype_t<TypeE>>::max();
 
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         err_type err = terr;
         if (err.dims[0] == 1 && err.dims[1] == 1) {
@@ -285,9 +285,9 @@ namespace astro {
 
     template<typename TypeM, typename TypeP = TypeM>
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
-        vec1i rr, rs;
+        vec1u rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
         img[rr] -= flux*psf[rs];
     }
-- 
2.43.0


From 6bfc9f9166bfa5c17b5c474a6c454dd5a3e56dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 124/209] fix: sed2flux read past the end of the SED, and
 returned NaN when filter and SED end together

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 05ebf00..dfbf212 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1335,7 +1335,7 @@ namespace astro {
         vif_check(!lam.empty(), "second array cannot be empty");
 
         uint_t ised = lower_bound(lam, flam.safe[0]);
-        if (ised == npos) return dnan;
+        if (ised == npos || ised+1 >= lam.size()) return dnan;
         uint_t ifil = 0;
 
         double plam = flam.safe[0];
@@ -1347,7 +1347,7 @@ namespace astro {
         while (ifil < nfil-1 && ised < nsed-1) {
             double nlam, nval;
 
-            if (flam.safe[ifil+1] < lam.safe[ised+1]) {
+            if (flam.safe[ifil+1] <= lam.safe[ised+1]) {
                 // Next point is from filter
                 ++ifil;
                 nlam = flam.safe[ifil];
-- 
2.43.0


From 7971e3dc92f8c75ed3d735748eecb6413c2cd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 125/209] fix: sed_luminosity integrated a wider range than
 requested

---
 include/vif/astro/astro.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index dfbf212..4c12388 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1404,11 +1404,9 @@ namespace astro {
     // The return value is in the same units as the input SED, i.e. most likely Lsun.
     template<typename TL, typename TS>
     double sed_luminosity(const vec<1,TL>& lam, const vec<1,TS>& sed, double l0, double l1) {
-        uint_t s = lower_bound(lam, l0);
-        uint_t e = upper_bound(lam, l1);
-        if (s == npos || e == npos) return dnan;
+        if (lam.empty() || l0 < lam.safe[0] || l1 > lam.safe[lam.size()-1]) return dnan;
 
-        return integrate(lam[s-_-e], sed[s-_-e]/lam[s-_-e]);
+        return integrate(lam, sed/lam, l0, l1);
     }
 
     // Compute the LIR luminosity of a rest-frame SED (8um to 1000um).
-- 
2.43.0


From 57c97c41eb76e6a55144db873ff6c7171f34dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 126/209] fix: pick_sources read out of the image for sources
 close to the upper edges

---
 include/vif/astro/astro.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 4c12388..fa3578c 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1286,12 +1286,14 @@ namespace astro {
         // Loop over all sources
         for (uint_t i = 0; i < x.size(); ++i) {
             // Discard any source that falls out of the boundaries of the image
-            if (x[i]-hsize < 1 || x[i]+hsize >= width || y[i] - hsize < 1 || y[i] + hsize >= height) {
+            if (!std::isfinite(x[i]) || !std::isfinite(y[i])) continue;
+            double rx = round(x[i]), ry = round(y[i]);
+            if (rx - hsize < 0 || rx + hsize >= width || ry - hsize < 0 || ry + hsize >= height) {
                 continue;
             }
 
-            uint_t ix = round(x[i]);
-            uint_t iy = round(y[i]);
+            uint_t ix = rx;
+            uint_t iy = ry;
 
             // TODO: (optimization) optimize this using subsrc?
             // TODO: fix this (will probably not compile because x and y are double)
-- 
2.43.0


From 1856fb017d1f8dd34b310378472a9267b45377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 127/209] fix: make_psf used uninitialized values when the
 model parameters are not numbers

---
 include/vif/astro/astro.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index fa3578c..a457f80 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1422,6 +1422,11 @@ namespace astro {
         const std::string& psf_model, vec<2,T>& psf) {
 
         vec1s params = trim(split(psf_model, ","));
+        if (params.empty()) {
+            error("empty PSF model");
+            return false;
+        }
+
         if (params[0] == "gaussian") {
             uint_t narg = 2;
             if (params.size() < narg+1) {
@@ -1434,8 +1439,10 @@ namespace astro {
             }
 
             double amp, width;
-            from_string(params[1], amp);
-            from_string(params[2], width);
+            if (!from_string(params[1], amp) || !from_string(params[2], width)) {
+                error("could not read the arguments of 'gaussian' PSF model '", psf_model, "'");
+                return false;
+            }
 
             psf = generate_img(dims, [=](uint_t x, uint_t y) {
                 return amp*exp(-(sqr(double(x) - x0) + sqr(double(y) - y0))/(2*sqr(width)));
@@ -1454,11 +1461,12 @@ namespace astro {
             }
 
             double amp, width, rpos, rfrac, rwidth;
-            from_string(params[1], amp);
-            from_string(params[2], width);
-            from_string(params[3], rpos);
-            from_string(params[4], rfrac);
-            from_string(params[5], rwidth);
+            if (!from_string(params[1], amp) || !from_string(params[2], width) ||
+                !from_string(params[3], rpos) || !from_string(params[4], rfrac) ||
+                !from_string(params[5], rwidth)) {
+                error("could not read the arguments of 'gaussring' PSF model '", psf_model, "'");
+                return false;
+            }
 
             psf = generate_img(dims, [=](uint_t x, uint_t y) {
                 double r2 = sqr(double(x) - x0) + sqr(double(y) - y0);
-- 
2.43.0


From 148bcbf7fff662003f2c5f8ee67b82c3043110a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 128/209] fix: field_area_hull could return NaN for very thin
 hulls

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index a457f80..10cc9e3 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -554,7 +554,7 @@ namespace astro {
             double e2 = angdistr(hx.safe[i-1], hy.safe[i-1], hx.safe[i],   hy.safe[i]);
             double e3 = angdistr(hx.safe[i],   hy.safe[i],   hx.safe[0],   hy.safe[0]);
             double p = 0.5*(e1 + e2 + e3);
-            area += sqrt(p*(p-e1)*(p-e2)*(p-e3));
+            area += sqrt(std::max(0.0, p*(p-e1)*(p-e2)*(p-e3)));
         }
 
         area /= sqr(d2r);
-- 
2.43.0


From b3878775f9f3757009df94f2eb7f057103941fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 129/209] fix: field_area_h2d divided by zero when the field is
 a point or a line

---
 include/vif/astro/astro.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 10cc9e3..89d220b 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -591,6 +591,9 @@ namespace astro {
         double rough_area = (angdist(min_ra, min_dec, max_ra, min_dec)/3600.0)*
                             (angdist(min_ra, min_dec, min_ra, max_dec)/3600.0);
 
+        // No area if the field is a point or a line
+        if (rough_area == 0.0) return 0.0;
+
         double dr = sqrt(optinum)*sqrt(rough_area/ra.size());
 
         // Now define the grid
-- 
2.43.0


From c7656a3bc8d8212e0ab3d1feb8998744fb578872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 130/209] fix: randpos_uniform_box without region could not be
 called

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 89d220b..3ca2b65 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -761,7 +761,7 @@ namespace astro {
         return true;
     }
 
-    template<typename TX, typename TY, typename TSeed, typename F>
+    template<typename TX, typename TY, typename TSeed>
     void randpos_uniform_box(TSeed& seed, uint_t nsrc, vec1d rx, vec1d ry,
         vec<1,TX>& x, vec<1,TY>& y) {
 
-- 
2.43.0


From 60e675d84d021e66eb9ae125987aba4af0983f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:09 +0000
Subject: [PATCH 131/209] fix: randpos_power_circle ignored the requested
 maximum number of iterations

---
 include/vif/astro/astro.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 3ca2b65..671d4df 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -942,10 +942,13 @@ namespace astro {
         auto genpos = [&in_region, &seed, &options](double x1, double y1, double r1,
             uint_t num, double threshold, vec1d& tx, vec1d& ty) mutable {
 
+            randpos_uniform_options uoptions;
+            uoptions.max_iter = options.max_iter;
+
             return randpos_uniform_circle(seed, num, x1, y1, r1, tx, ty,
                 [&](double nx, double ny) {
                     return in_region(nx, ny, threshold);
-                }
+                }, uoptions
             );
         };
 
-- 
2.43.0


From ce1f692017c57ea575dd9e81ec4641a0c5dbe8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 132/209] fix: default constructed wcs was allocated with new
 but released with free

---
 include/vif/astro/wcs.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..b20863f 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -1,6 +1,7 @@
 #ifndef VIF_IO_ASTRO_WCS_HPP
 #define VIF_IO_ASTRO_WCS_HPP
 
+#include <cstdlib>
 #include "vif/core/error.hpp"
 #include "vif/utility/thread.hpp"
 #include "vif/io/fits.hpp"
@@ -360,7 +361,9 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        explicit wcs(uint_t naxis = 2) :
+            // NB: must be allocated with malloc, since it will be freed by wcsvfree
+            w(static_cast<wcsprm*>(std::calloc(1, sizeof(wcsprm)))), nwcs(1) {
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0


From c7bb4ef3a5bd1f19152e793148e3a602baf0b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 133/209] fix: wcs used an invalid axis when the header has a
 RA axis but no Dec axis

---
 include/vif/astro/wcs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index b20863f..4af6b2b 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -451,7 +451,7 @@ namespace astro {
             // Identify RA and Dec axis
             uint_t tx = find_axis("RA");
             uint_t ty = find_axis("DEC");
-            if (tx != npos && tx != npos) {
+            if (tx != npos && ty != npos) {
                 ra_axis = x_axis = tx;
                 dec_axis = y_axis = ty;
 
-- 
2.43.0


From 77c289bbf620cbe6b40f94e1cc30823bf74a5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 134/209] fix: ad2xy and xy2ad converted the second coordinate
 to the type of the first

---
 include/vif/astro/wcs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 4af6b2b..018e71c 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -795,7 +795,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tra  = replicate(ra,  1);
-        vec<1,T> tdec = replicate(dec, 1);
+        vec<1,U> tdec = replicate(dec, 1);
         vec<1,V> tx;
         vec<1,W> ty;
 
@@ -815,7 +815,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tx = replicate(x, 1);
-        vec<1,T> ty = replicate(y, 1);
+        vec<1,U> ty = replicate(y, 1);
         vec<1,V> tra;
         vec<1,W> tdec;
 
-- 
2.43.0


From 3966ed6a921dc26ae1d6667a7b0f6321e2fe054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 135/209] fix: moving a wcs lost its 'isset' flag

---
 include/vif/astro/wcs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 018e71c..687ef52 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -548,6 +548,7 @@ namespace astro {
         wcs(wcs&& tw) noexcept {
             std::swap(w, tw.w);
             std::swap(nwcs, tw.nwcs);
+            std::swap(isset, tw.isset);
             std::swap(dims, tw.dims);
             std::swap(has_unit, tw.has_unit);
             std::swap(type, tw.type);
@@ -558,12 +559,15 @@ namespace astro {
         }
 
         wcs& operator = (wcs&& tw) noexcept {
+            if (this == &tw) return *this;
+
             if (w) {
                 wcsvfree(&nwcs, &w);
             }
 
             w = tw.w; tw.w = nullptr;
             nwcs = tw.nwcs; tw.nwcs = 0;
+            isset = tw.isset; tw.isset = false;
             dims = tw.dims; tw.dims.clear();
             has_unit = tw.has_unit; tw.has_unit.clear();
             type = tw.type; tw.type.clear();
-- 
2.43.0


From af2c0f54b0267e4d9ae2325ef8dadc13e7996e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 136/209] fix: wcs read one card past the end of the header

---
 include/vif/astro/wcs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 687ef52..7a7a263 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -382,7 +382,7 @@ namespace astro {
                 // Need to use a mutex since WCSlib uses non-thread safe header parsing...
                 std::lock_guard<std::mutex> lock(impl::wcs_impl::wcs_parser_mutex());
                 status = wcspih(
-                    const_cast<char*>(hdr.c_str()), hdr.size()/80 + 1,
+                    const_cast<char*>(hdr.c_str()), hdr.size()/80,
                     WCSHDR_all, 0, &nreject, &nwcs, &w
                 );
 
-- 
2.43.0


From e86ea748ca8498432f790667b11a5740d402488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 137/209] fix: filter_wcs duplicated the keywords which match
 several patterns

---
 include/vif/astro/wcs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 7a7a263..21a46ee 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -224,6 +224,7 @@ namespace astro {
             for (auto& wk : keywords) {
                 if (begins_with(k, wk)) {
                     nkeys.push_back(k);
+                    break;
                 }
             }
         }
-- 
2.43.0


From 0b8ce1f0eef964d9de84baf31dc98ddda4326f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 138/209] fix: ad2xy and xy2ad returned arbitrary values for
 coordinates which cannot be converted

---
 include/vif/astro/wcs.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 21a46ee..9fbd790 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -680,6 +680,12 @@ namespace impl {
             if (status != 0) {
                 error("could not perform WCS conversion");
                 w.report_errors();
+
+                // The values of the coordinates which could not be converted are meaningless
+                for (uint_t i : range(npt)) {
+                    if (status == WCSERR_BAD_WORLD && stat[i] == 0) continue;
+                    pix.safe(i,_) = dnan;
+                }
             }
 #endif
 
@@ -707,6 +713,12 @@ namespace impl {
             if (status != 0) {
                 error("could not perform WCS conversion");
                 w.report_errors();
+
+                // The values of the coordinates which could not be converted are meaningless
+                for (uint_t i : range(npt)) {
+                    if (status == WCSERR_BAD_PIX && stat[i] == 0) continue;
+                    world.safe(i,_) = dnan;
+                }
             }
 #endif
 
-- 
2.43.0


From 53249b375487c71fc8e88acab1ea2486e997df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 139/209] fix: regrid_interpolate with nearest neighbor ignored
 the first row and column

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c628fc5..372e316 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1838,7 +1838,7 @@ namespace impl {
         template<typename T, typename U>
         bool regrid_nearest(const vec<2,T>& imgs, double xps, double yps, U& flx) {
             int_t mx = round(xps), my = round(yps);
-            if (mx > 0 && uint_t(mx) < imgs.dims[1] && my > 0 && uint_t(my) < imgs.dims[0]) {
+            if (mx >= 0 && uint_t(mx) < imgs.dims[1] && my >= 0 && uint_t(my) < imgs.dims[0]) {
                 flx = imgs.safe(uint_t(my), uint_t(mx));
                 return true;
             } else {
-- 
2.43.0


From ce67333142787b70d9e467a25995e2875bbe900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 140/209] fix: regrid_interpolate used the axes of the source
 for the destination grid

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 372e316..510b201 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1913,8 +1913,8 @@ namespace astro {
 
         res = replicate(dnan, astrod.dims[astrod.y_axis], astrod.dims[astrod.x_axis]);
 
-        uint_t nx = astrod.dims[astros.x_axis];
-        uint_t ny = astrod.dims[astros.y_axis];
+        uint_t nx = astrod.dims[astrod.x_axis];
+        uint_t ny = astrod.dims[astrod.y_axis];
 
         // Precompute the projection of the new pixel grid on the old
         // Note: for the horizontal pixel 'i' of line 'j' (x_i,y_j), the grid is:
-- 
2.43.0


From fe7f2a0e1e83126ad5c4e6ff02f2d0083eb8af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 141/209] fix: regrid_interpolate with 'linearize' shifted the
 image in the wrong direction

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 510b201..9a73c60 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1957,7 +1957,7 @@ namespace astro {
                 int_t wy2 = ny-1 - wy1;
 
                 vec1u ids, idd;
-                subregion(res, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, idd, ids);
+                subregion(imgs, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, ids, idd);
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-- 
2.43.0


From cbfeb6b2ac1f723998d600d3c7044cde6aaaba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 142/209] fix: wrong pixel area in regridding with 'linearize'

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 9a73c60..c22af82 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1942,7 +1942,7 @@ namespace astro {
             s2d_wcs(csx, csy+1.0, cdx2, cdy2);
 
             cdx1 -= cdx; cdy1 -= cdy; cdx2 -= cdx; cdy2 -= cdy;
-            pixel_area = sqrt(sqr(cdx1) + sqr(cdy1))*sqrt(sqr(cdx2) + sqr(cdy2));
+            pixel_area = abs(cdx1*cdy2 - cdy1*cdx2);
 
             if (abs(cdx-round(cdx)) < 1e-6 && abs(cdy-round(cdy)) < 1e-6 &&
                 abs(cdx1 - 1.0) < 1e-6 && abs(cdy2 - 1.0) < 1e-6 &&
@@ -2113,7 +2113,7 @@ namespace astro {
             s2d_wcs(csx, csy+1.0, cdx2, cdy2);
 
             cdx1 -= cdx; cdy1 -= cdy; cdx2 -= cdx; cdy2 -= cdy;
-            pixel_area = sqrt(sqr(cdx1) + sqr(cdy1))*sqrt(sqr(cdx2) + sqr(cdy2));
+            pixel_area = sqr(opts.pixfrac)*abs(cdx1*cdy2 - cdy1*cdx2);
 
             if (abs(cdx-round(cdx)) < 1e-6 && abs(cdy-round(cdy)) < 1e-6 &&
                 abs(cdx1 - 1.0) < 1e-6 && abs(cdy2 - 1.0) < 1e-6 &&
-- 
2.43.0


From ae4b55aac3877dc7f3ddb8b933f722530457741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 143/209] fix: regrid_drizzle with 'linearize' and a simple
 shift ignored the pixfrac option

---
 include/vif/astro/image.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c22af82..2af82fa 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -2115,7 +2115,8 @@ namespace astro {
             cdx1 -= cdx; cdy1 -= cdy; cdx2 -= cdx; cdy2 -= cdy;
             pixel_area = sqr(opts.pixfrac)*abs(cdx1*cdy2 - cdy1*cdx2);
 
-            if (abs(cdx-round(cdx)) < 1e-6 && abs(cdy-round(cdy)) < 1e-6 &&
+            if (opts.pixfrac <= 1.0 &&
+                abs(cdx-round(cdx)) < 1e-6 && abs(cdy-round(cdy)) < 1e-6 &&
                 abs(cdx1 - 1.0) < 1e-6 && abs(cdy2 - 1.0) < 1e-6 &&
                 abs(cdy1) < 1e-3 && abs(cdx2) < 1e-3) {
 
@@ -2132,7 +2133,7 @@ namespace astro {
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-                wei[idd] = 1.0;
+                wei[idd] = sqr(opts.pixfrac);
 
                 return res;
             }
-- 
2.43.0


From acd0a8a98e0af36b5e22f54f473c9fb00d635be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:52 +0000
Subject: [PATCH 144/209] fix: regrid_drizzle gave too much weight to pixels
 which overlap the edge of the image

---
 include/vif/astro/image.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 2af82fa..565b250 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1744,6 +1744,11 @@ namespace impl {
         inline void regrid_drizzle(const vec<D,Type>& imgs, uint_t ix, uint_t iy, double flux_frac,
             const vec1d& xps, const vec1d& yps, double pixel_area, vec<D,double>& res, vec2d& wei) {
 
+            if (count(!is_finite(xps)) != 0 || count(!is_finite(yps)) != 0) {
+                // Original pixel cannot be projected on the destination image
+                return;
+            }
+
             // Get bounds of this projection
             uint_t ymin, xmin;
             int_t tymax, txmax;
@@ -1757,7 +1762,9 @@ namespace impl {
 
             uint_t ymax = tymax, xmax = txmax;
 
-            if (xmax == xmin && ymax == ymin) {
+            if (xmax == xmin && ymax == ymin &&
+                min(xps) >= xmin-0.5 && max(xps) <= xmin+0.5 &&
+                min(yps) >= ymin-0.5 && max(yps) <= ymin+0.5) {
                 // Original pixel is fully contained within destination pixel
                 add_flux(imgs, ix, iy, flux_frac, res, xmin, ymin);
                 wei.safe(ymin,xmin) += pixel_area;
-- 
2.43.0


From 3c012c0c3b931d8f1ccd7c08b1da638553bc9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:53 +0000
Subject: [PATCH 145/209] fix: regrid_interpolate converted invalid coordinates
 to integers

---
 include/vif/astro/image.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 565b250..09da7e0 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -2006,6 +2006,9 @@ namespace astro {
                 double xps = 0.25*(plx.safe[ix] + plx.safe[ix+1] + pux.safe[ix+1] + pux.safe[ix]);
                 double yps = 0.25*(ply.safe[ix] + ply.safe[ix+1] + puy.safe[ix+1] + puy.safe[ix]);
 
+                // Skip pixels which cannot be projected on the original image
+                if (!is_finite(xps) || !is_finite(yps)) continue;
+
                 double flx = 0.0;
                 bool covered = false;
 
-- 
2.43.0


From e660eed7cf537a806a47db195550249456bc7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:53 +0000
Subject: [PATCH 146/209] fix: cutout_extractor::setup_image forgot the
 previous images when called several times

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 09da7e0..45639a1 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1479,10 +1479,10 @@ namespace astro {
                 files = fits::read_sectfits(filename);
             }
 
-            imgs.data.reserve(files.size());
-            imgs.dims[0] = files.size();
+            imgs.data.reserve(imgs.data.size() + files.size());
             for (auto& f : files) {
                 imgs.data.emplace_back(f);
+                imgs.dims[0] = imgs.data.size();
                 if (!is_finite(aspix)) {
                     get_pixel_size(imgs.data.back().w, aspix);
                 }
-- 
2.43.0


From 87a5cda77b81513fec6b7cc81c6fd4bd8ea37546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:53 +0000
Subject: [PATCH 147/209] fix: cutout_extractor wrote the wrong header when the
 source is not covered

---
 include/vif/astro/image.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 45639a1..1892a73 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1499,6 +1499,7 @@ namespace astro {
             double ra, double dec, double size, Type def) const {
 
             cut.clear();
+            hdr.clear();
 
             double ira = ra, idec = dec;
             if (dist) {
@@ -1524,6 +1525,7 @@ namespace astro {
 
                 double dxc, dyc;
                 astro::ad2xy(w, ira, idec, dxc, dyc);
+                if (!is_finite(dxc) || !is_finite(dyc)) continue;
                 dxc -= 1.0; dyc -= 1.0;
                 int_t xc = round(dxc);
                 int_t yc = round(dyc);
@@ -1574,6 +1576,12 @@ namespace astro {
                 }
             }
 
+            bool covered = !cut.empty();
+            if (!covered) {
+                // Source not covered, just use placeholder data
+                cut = replicate(def, 2*hs+1, 2*hs+1);
+            }
+
             if (gethdr) {
                 if (hdr.empty() && gethdr) {
                     // Source not covered, just use the first WCS header
@@ -1589,13 +1597,7 @@ namespace astro {
                 }
             }
 
-            if (cut.empty()) {
-                // Source not covered, just use placeholder data
-                cut = replicate(def, 2*hs+1, 2*hs+1);
-                return false;
-            }
-
-            return true;
+            return covered;
         }
 
     public:
-- 
2.43.0


From 7416b51f95a08bd9f7c2c9e91f6ae5f1b4b5288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 148/209] fix: moving the image workspace of qstack moved its
 own coordinates

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..ae20009 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -62,7 +62,7 @@ namespace impl {
 
             image_workspace(image_workspace&& i) : status(i.status), fptr(i.fptr),
                 width(i.width), height(i.height), astro(std::move(i.astro)),
-                x(std::move(x)), y(std::move(y)) {
+                x(std::move(i.x)), y(std::move(i.y)) {
                 i.fptr = nullptr;
             }
 
-- 
2.43.0


From bf64bbd46020ca0580638032023cac0905ebd6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 149/209] fix: qstack could extract cutouts of the wrong size,
 and lost sources at the edge of the image

---
 include/vif/astro/qstack.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index ae20009..55979de 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -138,17 +138,21 @@ namespace astro {
             for (uint_t i : range(ra)) {
                 if (params.verbose) progress(pg);
 
-                long p0[2] = {long(round(img.x[i]-hsize)), long(round(img.y[i]-hsize))};
-                long p1[2] = {long(round(img.x[i]+hsize)), long(round(img.y[i]+hsize))};
+                if (!is_finite(img.x[i]) || !is_finite(img.y[i])) continue;
+
+                const long hs = hsize;
+                const long xc = round(img.x[i]), yc = round(img.y[i]);
+                long p0[2] = {xc - hs, yc - hs};
+                long p1[2] = {xc + hs, yc + hs};
 
                 // Discard any source that falls out of the boundaries of the image
-                if (p1[0] < 1 || p0[0] >= img.width || p1[1] < 1 || p0[1] >= img.height) {
+                if (p1[0] < 1 || p0[0] > img.width || p1[1] < 1 || p0[1] > img.height) {
                     continue;
                 }
 
                 vec<2,Type> cut(2*hsize+1, 2*hsize+1);
 
-                if (p0[0] < 1 || p1[0] >= img.width || p0[1] < 1 || p1[1] >= img.height) {
+                if (p0[0] < 1 || p1[0] > img.width || p0[1] < 1 || p1[1] > img.height) {
                     // The source is overlapping with the edges of the map
                     // Extract what we can
                     cut[_] = fnan;
@@ -310,11 +314,15 @@ namespace astro {
 
         // Loop over all sources
         for (uint_t i = 0; i < ra.size(); ++i) {
-            long p0[2] = {long(round(x[i]-hsize)), long(round(y[i]-hsize))};
-            long p1[2] = {long(round(x[i]+hsize)), long(round(y[i]+hsize))};
+            if (!is_finite(x[i]) || !is_finite(y[i])) continue;
+
+            const long hs = hsize;
+            const long xc = round(x[i]), yc = round(y[i]);
+            long p0[2] = {xc - hs, yc - hs};
+            long p1[2] = {xc + hs, yc + hs};
 
             // Discard any source that falls out of the boundaries of the image
-            if (p0[0] < 1 || p1[0] >= width || p0[1] < 1 || p1[1] >= height) {
+            if (p0[0] < 1 || p1[0] > width || p0[1] < 1 || p1[1] > height) {
                 continue;
             }
 
-- 
2.43.0


From bf49947d61555cbf3e04b240d991af4f350118ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 150/209] fix: qstack swapped the axes of partially covered
 cutouts

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 55979de..af916dc 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -160,7 +160,7 @@ namespace astro {
                     long p0b[2] = {max(1, p0[0]),         max(1, p0[1])};
                     long p1b[2] = {min(img.width, p1[0]), min(img.height, p1[1])};
 
-                    vec<2,Type> subcut(p1b[0]-p0b[0]+1, p1b[1]-p0b[1]+1);
+                    vec<2,Type> subcut(p1b[1]-p0b[1]+1, p1b[0]-p0b[0]+1);
 
                     Type null = fnan;
                     int anynul = 0;
-- 
2.43.0


From 5a36681998c7eef68bf70f66f5eb8adfd5a21f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 151/209] fix: qstack with weights and sections lost the
 offsets, and could mix up sources and weights

---
 include/vif/astro/qstack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index af916dc..90ae3ef 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -235,7 +235,7 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
-            qstack(ra, dec, ffile, hsize, cube, ids, params);
+            out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
             vec1u tids; // trash weight IDs: they are already collected in 'ids'
@@ -245,7 +245,12 @@ namespace astro {
 
             // Make sure that all sources that were extracted in one file match those that
             // are extracted in the other (could only keep the union of the two, WIP)
-            vif_check(nsci == nwht, "some sources are covered on '", ffile, "' but not '", wfile, "'");
+            bool same = nsci == nwht;
+            for (uint_t i = 0; same && i < nwht; ++i) {
+                same = ids[norig+i] == tids[i];
+            }
+
+            vif_check(same, "some sources are covered on '", ffile, "' but not '", wfile, "'");
 
             return out;
         }
-- 
2.43.0


From 390c2f647a37d9b8ff85c97f1e8df7ec37d03d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 152/209] fix: ds9.hpp could not be included alone

---
 include/vif/astro/ds9.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 7b46bf1..e001551 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -1,6 +1,8 @@
 #ifndef VIF_ASTRO_DS9_HPP
 #define VIF_ASTRO_DS9_HPP
 
+#include "vif/astro/astro.hpp"
+#include "vif/astro/image.hpp"
 #include "vif/astro/wcs.hpp"
 
 namespace vif {
-- 
2.43.0


From 4af218e3e56d179ee06b12620da2f59f461fad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 153/209] fix: regions written in physical coordinates were
 shifted by one pixel

---
 include/vif/astro/ds9.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index e001551..6340050 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -310,11 +310,14 @@ namespace ds9 {
     inline void write_region(std::ofstream& out, const std::string& ss,
         const vif::astro::ds9::region& r) {
 
+        // Add 1 to X and Y to go from C++ convention to FITS convention
+        const double offset = (r.physical ? 1.0 : 0.0);
+
         if (r.type == "circle") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << r.params[0]+offset << ", " << r.params[1]+offset << ", " <<
                 r.params[2] << ss << ")\n";
         } else if (r.type == "box") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << r.params[0]+offset << ", " << r.params[1]+offset << ", " <<
                 r.params[2] << ss << ", " <<
                 r.params[3] << ss << ", " << r.params[4] << ")\n";
         } else {
-- 
2.43.0


From 58960b80af0bc5da4cc7406e98baaf98af047a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 154/209] fix: read_regions ignored celestial coordinate
 systems after physical ones

---
 include/vif/astro/ds9.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 6340050..846b629 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -42,7 +42,12 @@ namespace ds9 {
 
             auto spos = line.find_first_of('(');
             if (spos == line.npos) {
-                if (trim(line) == "physical") physical = true;
+                std::string system = trim(line);
+                if (system == "physical") {
+                    physical = true;
+                } else if (system == "fk4" || system == "fk5" || system == "icrs") {
+                    physical = false;
+                }
                 continue;
             }
 
-- 
2.43.0


From da456cf694e067324388c7b831214958a9cd0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 155/209] fix: limweight was defined in a header without inline

---
 include/vif/astro/template_fit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 312e74f..d76b8e7 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -70,7 +70,7 @@ namespace astro {
     //            exp(-(measure - true)^2/(2*error^2))
     // the upper limit weight is given by an error function
     //            0.5 + 0.5*erf(-(measure - limit)/(sqrt(2.0)*error))
-    double limweight(double d) {
+    inline double limweight(double d) {
         return d < -3.0 ? d*d + 2.0*log(-2.0*sqrt(dpi/2.0)*d) : -2.0*log(0.5*(1.0 + erf(d/sqrt(2.0))));
     }
 
-- 
2.43.0


From 5f21e94b6c3faad02c63569b3d2d4e6c151dce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 156/209] fix: multi_template_fit stopped exploring the
 templates after the first rejected combination

---
 include/vif/astro/template_fit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index d76b8e7..3996ea5 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -404,7 +404,10 @@ namespace astro {
 
             vec1u ilib = replicate(0, nlib);
             for (uint_t i : range(nseds)) {
-                if (!constraints(ilib)) continue;
+                if (!constraints(ilib)) {
+                    increment_index_list(ilib, nsed);
+                    continue;
+                }
 
                 vec2f tpls(nlib, nfilter);
                 for (uint_t l : range(nlib)) {
@@ -480,6 +483,7 @@ namespace astro {
                     }
 
                     if (!inplace_invert_symmetric(alpha)) {
+                        increment_index_list(ilib, nsed);
                         continue;
                     }
 
-- 
2.43.0


From 63f31f657655e63887150af7044798d55c8bc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 157/209] fix: multi_template_fit with upper limits modified
 its simulated fluxes and returned wrong fluxes

---
 include/vif/astro/template_fit.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 3996ea5..91a4666 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -434,7 +434,7 @@ namespace astro {
 
                 for (uint_t s : range(params.nsim)) {
                     fres = mpfit([&](const vec1d& p) {
-                        auto deviate = rflux(s,_);
+                        vec1d deviate = rflux(s,_);
                         for (uint_t l : range(nlib)) {
                             deviate -= p[l]*tpls(l,_);
                         }
@@ -536,7 +536,8 @@ namespace astro {
         res.flux.resize(nlib, nfilter);
         if (is_finite(res.chi2)) {
             for (uint_t l : range(nlib)) {
-                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_)*err;
+                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_);
+                if (!params.ulim) res.flux(l,_) *= err;
             }
         } else {
             res.bfit = replicate(npos, nlib);
-- 
2.43.0


From 1d80dc548faec7d4c33c5740f6f487dd17c9a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 158/209] fix: template_observed could not be called with a
 list of redshifts

---
 include/vif/astro/template_fit.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 91a4666..e6d208a 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -49,7 +49,10 @@ namespace astro {
         for (uint_t i = 0; i < z.size(); ++i) {
             auto tlam = lib.lam*(1.0 + z[i]);
             auto tsed = lsun2uJy(z[i], d[i], lib.lam, lib.sed);
-            tlib.sed += interpolate(tsed, tlam, tlib.lam);
+            for (uint_t s : range(tlib.sed.dims[0])) {
+                vec1d lam0 = tlam(s,_), sed0 = tsed(s,_), lam1 = tlib.lam(s,_);
+                tlib.sed(s,_) += interpolate(sed0, lam0, lam1);
+            }
         }
 
         tlib.sed /= z.size();
-- 
2.43.0


From 0585ce968eeccc1c8ac01c11750edc7f6d937c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:30 +0000
Subject: [PATCH 159/209] fix: qstack combined the weights of the wrong sources
 when adding sections to existing stacks

---
 include/vif/astro/qstack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 90ae3ef..5db0c45 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -204,7 +204,8 @@ namespace astro {
                     }
                 } else {
                     // We already found this source in another image, combine the two
-                    uint_t id = where_last(ids == i);
+                    // (the cube may contain other cutouts, placed before those listed in 'ids')
+                    uint_t id = cube.dims[0] - ids.size() + where_last(ids == i);
                     vec1u idb = where(!is_finite(cube(id,_,_)));
                     cube(id,_,_)[idb] = cut[idb];
                 }
-- 
2.43.0


From 5bb7d77de4b630276f083ea8b7e40fee93862b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:09 +0000
Subject: [PATCH 160/209] fix: fast_exp shifted a negative number, which is
 undefined

---
 include/vif/math/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/base.hpp b/include/vif/math/base.hpp
index 3c4914e..c5fc4c8 100644
--- a/include/vif/math/base.hpp
+++ b/include/vif/math/base.hpp
@@ -146,7 +146,7 @@ namespace vif {
         // scale by 2^i
         std::int32_t k;
         std::memcpy(&k, &f, sizeof(float));
-        k += (i << 23);
+        k += i*(std::int32_t(1) << 23);
         std::memcpy(&f, &k, sizeof(float));
 
         return f;
-- 
2.43.0


From 4b1cc6aad27cb942be07de8ec3aef84d9716ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 161/209] fix: progress_tick counted one iteration too many at
 the end, and threw for 32 iterations or less

---
 include/vif/utility/time.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index f4993d5..2a0f9e4 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -167,7 +167,7 @@ namespace vif {
     void progress_tick(progress_t& p, double ticklen) {
         if (p.ended) return;
 
-        if (p.i < 10 || p.i - p.last_tick >= p.ips*ticklen) {
+        if (p.i < 10 || p.i+1 >= p.n || p.i - p.last_tick >= p.ips*ticklen) {
             p.last_tick = p.i;
             impl::progress_(p);
         }
@@ -175,7 +175,6 @@ namespace vif {
         ++p.i;
 
         if (p.i >= p.n) {
-            impl::progress_(p);
             std::cout << std::endl;
             p.ended = true;
         }
-- 
2.43.0


From 377b2501b7f166e8b006d3e34c1b810e57971812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:49 +0000
Subject: [PATCH 162/209] fix: Cholesky decomposition without LAPACK decomposed
 nothing when given a matrix of doubles

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index af2056c..d7ae33b 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From 3771fc50eacb87d6291b4ca4c3e27b31e721246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:45 +0000
Subject: [PATCH 163/209] fix: append() and prepend() along a dimension of a
 vector to itself (or a view of itself) read freed memory or were refused

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index b28201c..2fe498c 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -160,6 +160,12 @@ namespace vif {
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void append(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+        if (t2.view_same(t1) || static_cast<const void*>(&t1) == static_cast<const void*>(&t2)) {
+            // Aliasing, need a copy
+            append<N>(t1, vec<Dim,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         if (t1.empty()) {
             t1 = t2;
             return;
@@ -185,6 +191,12 @@ namespace vif {
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void prepend(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+        if (t2.view_same(t1) || static_cast<const void*>(&t1) == static_cast<const void*>(&t2)) {
+            // Aliasing, need a copy
+            prepend<N>(t1, vec<Dim,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         if (t1.empty()) {
             t1 = t2;
             return;
-- 
2.43.0


From 947b3320c8f27619c1763a4c62dc99e3e7028c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:41 +0000
Subject: [PATCH 164/209] fix: flatten() and reform() of a vector given with
 std::move() left it with dimensions but no data

---
 include/vif/utility/bits/generic-dims.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-dims.hpp b/include/vif/utility/bits/generic-dims.hpp
index fb21603..4917dae 100644
--- a/include/vif/utility/bits/generic-dims.hpp
+++ b/include/vif/utility/bits/generic-dims.hpp
@@ -21,6 +21,7 @@ namespace vif {
         vec<1,Type> r;
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.clear();
         return r;
     }
 
@@ -70,6 +71,7 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.clear();
 
         return r;
     }
-- 
2.43.0


From bd516d804216377cd4fbf809bbbe8d3ff94d814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:00 +0000
Subject: [PATCH 165/209] fix: interpolate() was wrong for decreasing unsigned
 data, and with uncertainties at integer positions

---
 include/vif/math/interpolate.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index bb34a5d..b13ba68 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -55,7 +55,9 @@ namespace vif {
                 xlow = x.safe[0]; xup = x.safe[1];
             }
 
-            r.push_back(ylow + (yup - ylow)*(tx - xlow)/(xup - xlow));
+            using ctype = decltype(ylow*xlow*tx);
+            r.push_back(ylow + (ctype(yup) - ctype(ylow))*(ctype(tx) - ctype(xlow))
+                /(ctype(xup) - ctype(xlow)));
         }
 
         return r;
@@ -97,7 +99,9 @@ namespace vif {
             xlow = x.safe[0]; xup = x.safe[1];
         }
 
-        return ylow + (yup - ylow)*(nx - xlow)/(xup - xlow);
+        using ctype = decltype(ylow*xlow*nx);
+        return ylow + (ctype(yup) - ctype(ylow))*(ctype(nx) - ctype(xlow))
+            /(ctype(xup) - ctype(xlow));
     }
 
     // Perform linear interpolation of data 'y' of position 'x' at new positions 'nx'.
@@ -146,8 +150,8 @@ namespace vif {
                 xlow = x.safe[0]; xup = x.safe[1];
             }
 
-            double a = (tx - xlow)/(xup - xlow);
-            p.first.push_back(ylow + (yup - ylow)*a);
+            double a = (double(tx) - double(xlow))/(double(xup) - double(xlow));
+            p.first.push_back(ylow + (double(yup) - double(ylow))*a);
             p.second.push_back(sqrt(sqr(elow*(1-a)) + sqr(eup*a)));
         }
 
-- 
2.43.0


From 68a48a578e3a7e2fa72735724aebb7f8b5309b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:18 +0000
Subject: [PATCH 166/209] fix: searches and set operations converted values to
 the element type of the vector before comparing them

---
 include/vif/core/bits/helpers.hpp | 57 ++++++++++++++-----------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/include/vif/core/bits/helpers.hpp b/include/vif/core/bits/helpers.hpp
index d83ae35..d538ce6 100644
--- a/include/vif/core/bits/helpers.hpp
+++ b/include/vif/core/bits/helpers.hpp
@@ -389,40 +389,37 @@ namespace meta {
 
 namespace impl {
 namespace meta_impl {
-    template<typename T, bool hasNaN>
-    struct strict_comparator_less_;
-
+    // Note: the two values do not need to have the same type, and must not be converted to one
+    // another before being compared (e.g., a position of type 'double' in a vector of 'int').
     template<typename T>
-    struct strict_comparator_less_<T, false> {
-        bool operator() (const T& t1, const T& t2) {
-            return t1 < t2;
-        }
-    };
+    bool comparator_is_nan_(const T& t, std::true_type) {
+        return std::isnan(t);
+    }
 
     template<typename T>
-    struct strict_comparator_less_<T, true> {
-        bool operator() (const T& t1, const T& t2) {
-            if (std::isnan(t1)) return false;
-            if (std::isnan(t2)) return true;
-            return t1 < t2;
-        }
-    };
-
-    template<typename T, bool hasNaN>
-    struct strict_comparator_greater_;
+    bool comparator_is_nan_(const T&, std::false_type) {
+        return false;
+    }
 
     template<typename T>
-    struct strict_comparator_greater_<T, false> {
-        bool operator() (const T& t1, const T& t2) {
-            return t1 > t2;
+    bool comparator_is_nan_(const T& t) {
+        return comparator_is_nan_(t, std::is_floating_point<T>{});
+    }
+
+    struct strict_comparator_less_ {
+        template<typename T1, typename T2>
+        bool operator() (const T1& t1, const T2& t2) {
+            if (comparator_is_nan_(t1)) return false;
+            if (comparator_is_nan_(t2)) return true;
+            return t1 < t2;
         }
     };
 
-    template<typename T>
-    struct strict_comparator_greater_<T, true> {
-        bool operator() (const T& t1, const T& t2) {
-            if (std::isnan(t1)) return false;
-            if (std::isnan(t2)) return true;
+    struct strict_comparator_greater_ {
+        template<typename T1, typename T2>
+        bool operator() (const T1& t1, const T2& t2) {
+            if (comparator_is_nan_(t1)) return false;
+            if (comparator_is_nan_(t2)) return true;
             return t1 > t2;
         }
     };
@@ -431,12 +428,8 @@ namespace meta_impl {
 
 namespace meta {
     template<typename T>
-    using strict_comparator_less = impl::meta_impl::strict_comparator_less_<T,
-        std::numeric_limits<T>::has_quiet_NaN || std::numeric_limits<T>::has_signaling_NaN
-    >;
+    using strict_comparator_less = impl::meta_impl::strict_comparator_less_;
     template<typename T>
-    using strict_comparator_greater = impl::meta_impl::strict_comparator_greater_<T,
-        std::numeric_limits<T>::has_quiet_NaN || std::numeric_limits<T>::has_signaling_NaN
-    >;
+    using strict_comparator_greater = impl::meta_impl::strict_comparator_greater_;
 } // end namespace meta
 } // end namespace vif
-- 
2.43.0


From ab9bd33b84cc4c0c41ba5e3f0f486c072b44fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:13 +0000
Subject: [PATCH 167/209] fix: interpolate() and bilinear() could not be called
 with positions of more than one dimension

---
 include/vif/math/interpolate.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index b13ba68..6404766 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -36,8 +36,9 @@ namespace vif {
             "interpolate: 'x' and 'y' arrays must contain at least 2 elements");
 
         uint_t nmax = x.size();
-        vec<DX,decltype(y[0]*x[0])> r; r.reserve(nx.size());
-        for (auto& tx : nx) {
+        vec<DX,decltype(y[0]*x[0])> r(nx.dims);
+        for (uint_t i : range(nx)) {
+            auto tx = nx.safe[i];
             uint_t low = lower_bound(x, tx);
 
             rtypey ylow, yup;
@@ -56,8 +57,8 @@ namespace vif {
             }
 
             using ctype = decltype(ylow*xlow*tx);
-            r.push_back(ylow + (ctype(yup) - ctype(ylow))*(ctype(tx) - ctype(xlow))
-                /(ctype(xup) - ctype(xlow)));
+            r.safe[i] = ylow + (ctype(yup) - ctype(ylow))*(ctype(tx) - ctype(xlow))
+                /(ctype(xup) - ctype(xlow));
         }
 
         return r;
@@ -126,9 +127,10 @@ namespace vif {
 
         uint_t nmax = x.size();
         std::pair<vec<DX,decltype(y[0]*x[0])>,vec<DX,decltype(y[0]*x[0])>> p;
-        p.first.reserve(nx.size());
-        p.second.reserve(nx.size());
-        for (auto& tx : nx) {
+        p.first.resize(nx.dims);
+        p.second.resize(nx.dims);
+        for (uint_t i : range(nx)) {
+            auto tx = nx.safe[i];
             uint_t low = lower_bound(x, tx);
 
             rtypey ylow, yup;
@@ -151,8 +153,8 @@ namespace vif {
             }
 
             double a = (double(tx) - double(xlow))/(double(xup) - double(xlow));
-            p.first.push_back(ylow + (double(yup) - double(ylow))*a);
-            p.second.push_back(sqrt(sqr(elow*(1-a)) + sqr(eup*a)));
+            p.first.safe[i] = ylow + (double(yup) - double(ylow))*a;
+            p.second.safe[i] = sqrt(sqr(elow*(1-a)) + sqr(eup*a));
         }
 
         return p;
-- 
2.43.0


From 0b2ea985dd5e4cb745feaa294f5e6bfe022417b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:03 +0000
Subject: [PATCH 168/209] fix: regex_replace() leaked the compiled expression
 when the replacement function throws

---
 include/vif/utility/bits/string-regex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index e5b6c62..3668497 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -143,7 +143,12 @@ namespace vif {
                 }
             }
 
-            s += func(std::move(ext));
+            try {
+                s += func(std::move(ext));
+            } catch (...) {
+                regfree(&re);
+                throw;
+            }
 
             offset += m[0].rm_eo;
             if (m[0].rm_eo == m[0].rm_so) {
-- 
2.43.0


From b8889adcbf8647dca26c1c1c7c1df2e3131c6416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:46 +0000
Subject: [PATCH 169/209] fix: initializer lists of different sizes were
 accepted when the first one is empty, losing the values of the others

---
 include/vif/core/bits/initializer_list.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/vif/core/bits/initializer_list.hpp b/include/vif/core/bits/initializer_list.hpp
index a73f74b..81126b9 100644
--- a/include/vif/core/bits/initializer_list.hpp
+++ b/include/vif/core/bits/initializer_list.hpp
@@ -47,12 +47,27 @@ namespace vec_ilist {
             }
         }
 
+        static bool empty_(meta::nested_initializer_list<1,dtype> il, meta::cte_t<Dim-1>) {
+            return il.size() == 0;
+        }
+
+        template<std::size_t N, typename enable = typename std::enable_if<N != Dim-1>::type>
+        static bool empty_(meta::nested_initializer_list<Dim-N,dtype> il, meta::cte_t<N>) {
+            for (auto& t : il) {
+                if (!empty_(t, meta::cte_t<N+1>())) return false;
+            }
+
+            return true;
+        }
+
         static void fill(vec<Dim,Type>& v, meta::nested_initializer_list<Dim,dtype> il) {
             set_dim_(v, il, meta::cte_t<0>());
             v.resize();
             if (!v.empty()) {
                 uint_t idx = 0;
                 fill_(v, il, idx, meta::cte_t<0>());
+            } else {
+                vif_check(empty_(il, meta::cte_t<0>()), "heterogeneous intializer lists are not allowed");
             }
         }
     };
-- 
2.43.0


From 8fddcbebd96d5c252b88fb11329c9d930ad7073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:16 +0000
Subject: [PATCH 170/209] fix: mpfit() could report the chi2 of a rejected step
 instead of that of the returned parameters

---
 include/vif/math/mpfit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index 54280c1..7b9e8bd 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -850,7 +850,7 @@ namespace vif {
         res.params = xall;
         fvec = flatten(deviate(xall));
         fnorm = mpfit_enorm(fvec);
-        res.chi2 = sqr(std::max(fnorm, fnorm1));
+        res.chi2 = sqr(fnorm);
         res.iter = iter;
 
         if (!options.nocovar) {
-- 
2.43.0


From ee2360802ce1d5f3a61e4583f51982247f9d5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:06 +0000
Subject: [PATCH 171/209] fix: file::to_string() terminated the program on
 directories and special files (their size is unknown)

---
 include/vif/io/filesystem.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 5ae3032..b6c5900 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -60,17 +60,14 @@ namespace file {
     }
 
     inline std::string to_string(const std::string& file_name) {
-        std::string   dst;
+        // Note: the size of special files is not known in advance
+        std::ostringstream dst;
         std::ifstream src(file_name, std::ios::binary);
         if (src) {
-            src.seekg(0, std::ios::end);
-            dst.resize(src.tellg());
-            src.seekg(0, std::ios::beg);
-            src.read(&dst[0], dst.size());
-            src.close();
+            dst << src.rdbuf();
         }
 
-        return dst;
+        return dst.str();
     }
 
     class explorer {
-- 
2.43.0


From 834af1b02404b40b9e49ec398d0a7595cc9c643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 172/209] fix: fits::write(), write_table(), update_table() and
 update_hdu() ended normally when the data could not be written (errors on
 close were lost)

---
 include/vif/io/fits.hpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/vif/io/fits.hpp b/include/vif/io/fits.hpp
index ae42694..e6d516b 100644
--- a/include/vif/io/fits.hpp
+++ b/include/vif/io/fits.hpp
@@ -123,11 +123,14 @@ namespace fits {
         fits::output_image img(filename);
         img.write(v);
         img.write_header(hdr);
+        img.flush(); // errors are not reported when the file is closed
     }
 
     template<std::size_t Dim, typename Type>
     void write(const std::string& filename, const vec<Dim,Type>& v) {
-        fits::output_image(filename).write(v);
+        fits::output_image img(filename);
+        img.write(v);
+        img.flush();
     }
 
     // Write an image in a FITS file
@@ -136,6 +139,7 @@ namespace fits {
         fits::image img(filename);
         img.reach_hdu(hdu);
         img.update(v);
+        img.flush();
     }
 
     // Read information about the columns of a FITS table
@@ -186,19 +190,24 @@ namespace fits {
     // Write several columns in a FITS file.
     template<typename ... Args>
     void write_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::output_table(filename).write_columns(name, std::forward<Args>(args)...);
+        fits::output_table tbl(filename);
+        tbl.write_columns(name, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename ... Args>
     void write_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::output_table(filename).write_columns(impl::ascii_impl::macroed_t{},
-            names, std::forward<Args>(args)...);
+        fits::output_table tbl(filename);
+        tbl.write_columns(impl::ascii_impl::macroed_t{}, names, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void write_table(const std::string& filename, const T& t) {
-        fits::output_table(filename).write_columns(t);
+        fits::output_table tbl(filename);
+        tbl.write_columns(t);
+        tbl.flush();
     }
 
     // Append an new column to an existing FITS table
@@ -206,19 +215,24 @@ namespace fits {
 
     template<typename ... Args>
     void update_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::table(filename).update_columns(name, std::forward<Args>(args)...);
+        fits::table tbl(filename);
+        tbl.update_columns(name, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename ... Args>
     void update_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::table(filename).update_columns(impl::ascii_impl::macroed_t{},
-            names, std::forward<Args>(args)...);
+        fits::table tbl(filename);
+        tbl.update_columns(impl::ascii_impl::macroed_t{}, names, std::forward<Args>(args)...);
+        tbl.flush();
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void update_table(const std::string& filename, const T& t) {
-        fits::table(filename).update_columns(t);
+        fits::table tbl(filename);
+        tbl.update_columns(t);
+        tbl.flush();
     }
 }
 }
-- 
2.43.0


From e8912b2f019bd273b368bec0bc03da770998eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 173/209] fix: ascii::write_table() ended normally when the
 data could not be written (full disk)

---
 include/vif/io/ascii.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 28152c0..8558dd4 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -715,6 +715,10 @@ namespace ascii {
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (writing "+filename+")");
         }
+
+        // Make sure that everything has reached the file
+        file.out.close();
+        vif_check(file.out.good(), "could not write all data to file "+filename);
     }
 
     template<typename T, typename ... Args, typename enable = typename std::enable_if<
-- 
2.43.0


From aec33a248d6010c1c9d5ff356f545fb8421357fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 174/209] fix: writing regions ended normally when the file
 could not be created or written

---
 include/vif/astro/ds9.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 846b629..a4cfd11 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -339,6 +339,7 @@ namespace ds9 {
         const astro::wcs& w) {
 
         std::ofstream regfile(filename);
+        vif_check(regfile.is_open(), "could not open file ", filename, " to write regions");
         regfile << "# Region file format: DS9 version 4.1\n";
         regfile << "global color=green dashlist=8 3 width=1 font=\"helvetica 10 normal "
             "roman\" select=1 highlite=1 dash=0 fixed=0 edit=1 move=1 delete=1 include=1 "
@@ -367,6 +368,9 @@ namespace ds9 {
                 impl::astro::ds9::write_region(regfile, size_suffix, r);
             }
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write all regions to file ", filename);
     }
 
     inline void write_regions_physical(const std::string& filename, const vec<1,region>& regs,
@@ -376,6 +380,7 @@ namespace ds9 {
         astro::get_pixel_size(w, aspix);
 
         std::ofstream regfile(filename);
+        vif_check(regfile.is_open(), "could not open file ", filename, " to write regions");
         regfile << "# Region file format: DS9 version 4.1\n";
         regfile << "global color=green dashlist=8 3 width=1 font=\"helvetica 10 normal "
             "roman\" select=1 highlite=1 dash=0 fixed=0 edit=1 move=1 delete=1 include=1 "
@@ -392,10 +397,14 @@ namespace ds9 {
                 impl::astro::ds9::write_region(regfile, "", n);
             }
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write all regions to file ", filename);
     }
 
     inline void write_regions_physical(const std::string& filename, const vec<1,region>& regs) {
         std::ofstream regfile(filename);
+        vif_check(regfile.is_open(), "could not open file ", filename, " to write regions");
         regfile << "# Region file format: DS9 version 4.1\n";
         regfile << "global color=green dashlist=8 3 width=1 font=\"helvetica 10 normal "
             "roman\" select=1 highlite=1 dash=0 fixed=0 edit=1 move=1 delete=1 include=1 "
@@ -408,6 +417,9 @@ namespace ds9 {
             vif_check(r.physical, "no WCS provided to convert region to physical");
             impl::astro::ds9::write_region(regfile, "", r);
         }
+
+        regfile.close();
+        vif_check(regfile.good(), "could not write all regions to file ", filename);
     }
 }
 }
-- 
2.43.0


From d91cfd1659912bed302e044380fb0fb4b90b2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 175/209] fix: save_args() ended normally when the file could
 not be created or written

---
 include/vif/utility/argv.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 785c695..b49f61d 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -342,6 +342,9 @@ namespace vif {
         for (int i = 1; i < argc; ++i) {
             cmd << " " << argv[i];
         }
+
+        cmd.close();
+        vif_check(cmd.good(), "could not write arguments to file ", file);
     }
 
     inline std::string make_cmd(int argc, char* argv[]) {
-- 
2.43.0


From 1d5cff0fcb70b9b4a19e59694c94b5b2f9dacb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 176/209] fix: print_radec() rounded coordinates to 6 digits
 and did not report files that could not be written

---
 include/vif/astro/astro.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 671d4df..224798c 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1169,11 +1169,18 @@ namespace astro {
 
     template<std::size_t Dim, typename TR, typename TD>
     void print_radec(const std::string& file, const vec<Dim,TR>& ra, const vec<Dim,TD>& dec) {
+        vif_check(ra.dims == dec.dims, "RA and Dec dimensions do not match (",
+            ra.dims, " vs ", dec.dims, ")");
+
         std::ofstream f(file);
+        f.precision(12);
 
         for (uint_t i : range(ra)) {
             f << ra[i] << "\t" << dec[i] << "\n";
         }
+
+        f.close();
+        vif_check(f.good(), "could not write coordinates to file ", file);
     }
 
     inline bool get_band(const vec1s& bands, const std::string& band, uint_t& bid) {
-- 
2.43.0


From 482e85b17297f6de77c8ef63feb2f97f47b17eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:47 +0000
Subject: [PATCH 177/209] fix: file::copy() reported success when only part of
 the file could be written

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index b6c5900..edc2cfd 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -48,7 +48,8 @@ namespace file {
         if (!dst.is_open()) return false;
         if (!empty) dst << src.rdbuf();
         dst.close();
-        return !dst.fail();
+        // NB: writing to 'dst' can stop at any point without setting an error flag
+        return !dst.fail() && (empty || src.rdbuf()->sgetc() == std::ifstream::traits_type::eof());
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From e7280359ce77d57c348f958cd18cd588ee611418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:47 +0000
Subject: [PATCH 178/209] fix: reading or writing text columns of FITS tables
 leaked memory when it failed

---
 include/vif/io/fits/table.hpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 64c9271..1aca03e 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -431,9 +431,10 @@ namespace fits {
                 return;
             }
 
-            char** buffer = new char*[v.size()];
+            std::vector<char> storage(v.size()*(naxes[0]+1));
+            std::vector<char*> buffer(v.size());
             for (uint_t i : range(v)) {
-                buffer[i] = new char[naxes[0]+1];
+                buffer[i] = storage.data() + i*(naxes[0]+1);
             }
 
             long nelem = v.size();
@@ -442,16 +443,13 @@ namespace fits {
             int null;
             fits_read_col(
                 fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1, nelem, &def,
-                buffer, &null, &status_
+                buffer.data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
 
             for (uint_t i : range(v)) {
                 v.safe[i] = trim(std::string(buffer[i]));
-                delete[] buffer[i];
             }
-
-            delete[] buffer;
         }
 
         void read_column_impl_(const table_read_options&, std::string& v, const std::string& cname,
@@ -464,8 +462,8 @@ namespace fits {
                 return;
             }
 
-            char** buffer = new char*[1];
-            buffer[0] = new char[repeat+1];
+            std::vector<char> storage(repeat+1);
+            char* buffer[] = {storage.data()};
 
             char def = '\0';
             int null;
@@ -480,8 +478,6 @@ namespace fits {
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
 
             v = trim(std::string(buffer[0]));
-            delete[] buffer[0];
-            delete[] buffer;
         }
 
         template<std::size_t Dim, typename Type,
@@ -1167,23 +1163,18 @@ namespace fits {
             // cfitsio doesn't like writing empty string or columns
             if (nmax == 0 || value.empty()) return;
 
-            char** buffer = new char*[value.size()];
+            std::vector<char> storage(value.size()*(nmax+1));
+            std::vector<char*> buffer(value.size());
             for (uint_t i : range(value)) {
-                buffer[i] = new char[nmax+1];
+                buffer[i] = storage.data() + i*(nmax+1);
                 strcpy(buffer[i], value[i].c_str());
             }
 
             fits_write_col(
                 fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1,
-                value.size(), buffer, &status_
+                value.size(), buffer.data(), &status_
             );
             fits::vif_check_cfitsio(status_, "could not write column '"+tcolname+"'");
-
-            for (uint_t i : range(value)) {
-                delete[] buffer[i];
-            }
-
-            delete[] buffer;
         }
 
         void write_column_impl_(const std::string& tcolname, int cid,
@@ -1192,13 +1183,10 @@ namespace fits {
             // NB: for some reason cfitsio crashes on empty string
             if (value.empty()) return;
 
-            char** buffer = new char*[1];
-            buffer[0] = const_cast<char*>(value.c_str());
+            char* buffer[] = {const_cast<char*>(value.c_str())};
             fits_write_col(fptr_, impl::fits_impl::traits<std::string>::ttype, cid, 1, 1, 1,
                 buffer, &status_);
             fits::vif_check_cfitsio(status_, "could not write column '"+tcolname+"'");
-
-            delete[] buffer;
         }
 
         template<std::size_t Dim, typename Type>
-- 
2.43.0


From 808b2de1c604709cec5d05fe5a39d2ed5f7ab54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 179/209] fix: fits2ascii rounded floating point columns to 6
 digits

---
 tools/fits2ascii/fits2ascii.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/fits2ascii/fits2ascii.cpp b/tools/fits2ascii/fits2ascii.cpp
index 8af8266..61901de 100644
--- a/tools/fits2ascii/fits2ascii.cpp
+++ b/tools/fits2ascii/fits2ascii.cpp
@@ -73,7 +73,13 @@ do_next read_column_(const std::string& filename, const std::string& colname,
         tmp = tmp(ids, repeat<D-1>(_));
     }
 
-    v = to_string_vector(tmp);
+    if (std::is_same<T,float>::value) {
+        v = to_string_vector(format::scientific(tmp));
+    } else if (std::is_same<T,double>::value) {
+        v = to_string_vector(format::precision(tmp, 17));
+    } else {
+        v = to_string_vector(tmp);
+    }
 
     return do_next::run;
 }
-- 
2.43.0


From 8fed3c0226271551e77980b257b97190491ac29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 180/209] fix: fits2ascii did not report files that could not
 be written

---
 tools/fits2ascii/fits2ascii.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/fits2ascii/fits2ascii.cpp b/tools/fits2ascii/fits2ascii.cpp
index 61901de..9d89f56 100644
--- a/tools/fits2ascii/fits2ascii.cpp
+++ b/tools/fits2ascii/fits2ascii.cpp
@@ -363,6 +363,11 @@ int vif_main(int argc, char* argv[]) {
     }
 
     std::ofstream out(out_file);
+    if (!out.is_open()) {
+        error("could not open '", out_file, "' to write the table");
+        return 1;
+    }
+
     out << "# " << collapse(names) << "\n";
     out << "# " << collapse(types) << "\n";
     out << "# \n";
@@ -375,6 +380,12 @@ int vif_main(int argc, char* argv[]) {
         out << "\n";
     }
 
+    out.close();
+    if (!out) {
+        error("could not write the table to '", out_file, "'");
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 84a969ba96d119d2d0bb4ed05f0d2106a2c6f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 181/209] fix: qregrid moved the center of non-square images
 when changing the pixel scale

---
 tools/qregrid/qregrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qregrid/qregrid.cpp b/tools/qregrid/qregrid.cpp
index 796a883..90f566a 100644
--- a/tools/qregrid/qregrid.cpp
+++ b/tools/qregrid/qregrid.cpp
@@ -140,7 +140,7 @@ int vif_main(int argc, char* argv[]) {
             params.pixel_scale = aspix;
             params.dims_x = dims[1];
             params.dims_y = dims[0];
-            astro::xy2ad(astros, imgs.dims[0]/2 + 1, imgs.dims[1]/2 + 1, params.sky_ref_ra, params.sky_ref_dec);
+            astro::xy2ad(astros, imgs.dims[1]/2 + 1, imgs.dims[0]/2 + 1, params.sky_ref_ra, params.sky_ref_dec);
             params.pixel_ref_x = dims[1]/2 + 1;
             params.pixel_ref_y = dims[0]/2 + 1;
 
-- 
2.43.0


From 5505e1e9e47f9d1cffb96921d81b47df78093219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 182/209] fix: qconvol used a beam that is 5% wider than
 requested

---
 tools/qconvol/qconvol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qconvol/qconvol.cpp b/tools/qconvol/qconvol.cpp
index 03e22e3..10f3fe0 100644
--- a/tools/qconvol/qconvol.cpp
+++ b/tools/qconvol/qconvol.cpp
@@ -76,7 +76,7 @@ int vif_main(int argc, char* argv[]) {
             radius /= aspix;
         }
 
-        radius /= 1.117;
+        radius /= sqrt(2.0*log(2.0)); // convert half-width at half maximum to sigma
         uint_t nk = ceil(30*radius);
         if (nk % 2 == 0) ++nk;
 
-- 
2.43.0


From e74548cbf9ddeea1f9cbb4965360b7a217425608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 183/209] fix: qmask crashed when it was called without
 arguments

---
 tools/qmask/qmask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/qmask/qmask.cpp b/tools/qmask/qmask.cpp
index 19c2d5e..8e2b445 100644
--- a/tools/qmask/qmask.cpp
+++ b/tools/qmask/qmask.cpp
@@ -130,6 +130,11 @@ bool read_ds9_region_circles_physical(std::string file_name,
 }
 
 int vif_main(int argc, char* argv[]) {
+    if (argc < 3) {
+        print("usage: qmask img.fits regions.reg [out.fits]");
+        return 0;
+    }
+
     std::string img_file = argv[1];
     std::string aper_reg = argv[2];
     std::string out_file = (argc > 3 ? argv[3] : file::remove_extension(img_file)+"_msk.fits");
-- 
2.43.0


From 8793a636899d7a7203a607fbbb11773fae0b40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 184/209] fix: radec2pix did not report sexagesimal coordinates
 that it could not read

---
 tools/radec2pix/radec2pix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/radec2pix/radec2pix.cpp b/tools/radec2pix/radec2pix.cpp
index 26743fb..a23d1b1 100644
--- a/tools/radec2pix/radec2pix.cpp
+++ b/tools/radec2pix/radec2pix.cpp
@@ -37,7 +37,10 @@ int vif_main(int argc, char* argv[]) {
                 return 1;
             }
         } else {
-            sex2deg(sra, sdec, ra[c], dec[c]);
+            if (!sex2deg(sra, sdec, ra[c], dec[c])) {
+                error("could not convert '"+sra+"' and '"+sdec+"' to coordinates");
+                return 1;
+            }
         }
     }
 
-- 
2.43.0


From 58b187c89be787e9e0afdb8c08d710226b2758f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 185/209] fix: imgtool returned a success status for operations
 that failed

---
 tools/imgtool/imgtool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/imgtool/imgtool.cpp b/tools/imgtool/imgtool.cpp
index f3d079a..a48acff 100644
--- a/tools/imgtool/imgtool.cpp
+++ b/tools/imgtool/imgtool.cpp
@@ -31,17 +31,21 @@ int vif_main(int argc, char* argv[]) {
             print_rotate_help();
         } else {
             error("unknown operation '", op, "'");
+            return 1;
         }
     } else {
+        bool good = false;
         if (op == "convolve") {
-            convolve(argc-1, argv+1);
+            good = convolve(argc-1, argv+1);
         } else if (op == "multiply") {
-            multiply(argc-1, argv+1);
+            good = multiply(argc-1, argv+1);
         } else if (op == "rotate") {
-            rotate(argc-1, argv+1);
+            good = rotate(argc-1, argv+1);
         } else {
             error("unknown operation '", op, "'");
         }
+
+        return good ? 0 : 1;
     }
 
     return 0;
-- 
2.43.0


From 531b1a1b44aae3f3b16c4f99a9c019b3e7bd4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 186/209] fix: fitstool returned a success status for
 operations that failed

---
 tools/fitstool/fitstool.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index 99502e0..aa081ef 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -65,6 +65,7 @@ int vif_main(int argc, char* argv[]) {
             print_extract_help();
         } else {
             error("unknown operation '", op, "'");
+            return 1;
         }
     } else {
         if (!file::exists(file)) {
@@ -72,31 +73,34 @@ int vif_main(int argc, char* argv[]) {
             return 1;
         }
 
+        bool good = false;
         if (op == "remove") {
-            remove_columns(argc-2, argv+2, file);
+            good = remove_columns(argc-2, argv+2, file);
         } else if (op == "transpose") {
-            transpose_columns(argc-2, argv+2, file);
+            good = transpose_columns(argc-2, argv+2, file);
         } else if (op == "r2c") {
-            rows_to_columns(argc-2, argv+2, file);
+            good = rows_to_columns(argc-2, argv+2, file);
         } else if (op == "cpwcs") {
-            copy_wcs_header(argc-2, argv+2, file);
+            good = copy_wcs_header(argc-2, argv+2, file);
         } else if (op == "hdr") {
-            show_header(argc-2, argv+2, file);
+            good = show_header(argc-2, argv+2, file);
         } else if (op == "editkwd") {
-            edit_keyword(argc-2, argv+2, file);
+            good = edit_keyword(argc-2, argv+2, file);
         } else if (op == "rmkwd") {
-            remove_keyword(argc-2, argv+2, file);
+            good = remove_keyword(argc-2, argv+2, file);
         } else if (op == "readkwd") {
-            read_keyword(argc-2, argv+2, file);
+            good = read_keyword(argc-2, argv+2, file);
         } else if (op == "make2d") {
-            make_2d(argc-2, argv+2, file);
+            good = make_2d(argc-2, argv+2, file);
         } else if (op == "meta") {
-            move_meta_columns(argc-2, argv+2, file);
+            good = move_meta_columns(argc-2, argv+2, file);
         } else if (op == "extract") {
-            extract_extension(argc-2, argv+2, file);
+            good = extract_extension(argc-2, argv+2, file);
         } else {
             error("unknown operation '", op, "'");
         }
+
+        return good ? 0 : 1;
     }
 
     return 0;
-- 
2.43.0


From c5a79c5c1ab1f5d2c447fb6973b3ca15e728418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 187/209] fix: fitstool r2c only kept the first element of
 multi-element columns

---
 tools/fitstool/fitstool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index aa081ef..0a13b19 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -390,7 +390,7 @@ bool rows_to_columns(int argc, char* argv[], const std::string& file) {
                 tdim = "("+to_string(nrow)+")";
             } else {
                 {
-                    std::string tmp = itform; erase_end(tmp, 1);
+                    std::string tmp = erase_end(itform, 1);
                     from_string(tmp, nelem);
                 }
 
-- 
2.43.0


From 1308863355607a1761ad26da79a960eff11c7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 188/209] fix: fitstool r2c returned a success status for
 tables it cannot convert

---
 tools/fitstool/fitstool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index 0a13b19..181c163 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -344,7 +344,7 @@ bool rows_to_columns(int argc, char* argv[], const std::string& file) {
         if (nrow == 1) {
             error("this FITS file is already column-oriented");
             fits_close_file(ifptr, &status);
-            return 1;
+            return false;
         }
 
         int ncol;
-- 
2.43.0


From 722970a2fe4b4ee84be1100713a54588a1307081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 189/209] fix: fitstool editkwd could not write quoted text

---
 tools/fitstool/fitstool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index 181c163..b6a3122 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -650,7 +650,7 @@ bool write_keyword_value(fitsfile* fptr, bool newk, std::string name, std::strin
             for (uint_t i = new_value.size()-1; i != npos; --i) {
                 if (new_value[i] == '\'') {
                     new_value.resize(i);
-                    return false;
+                    break;
                 }
             }
         }
-- 
2.43.0


From bc4b44c1ded16fec2a76c526272ec5ec83ff7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 190/209] fix: fitstool editkwd wrote uninitialized memory in
 the comment of new keywords

---
 tools/fitstool/fitstool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index b6a3122..eb40294 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -741,7 +741,7 @@ bool edit_keyword(int argc, char* argv[], const std::string& file) {
                 if (name.empty()) break;
 
                 char value[80];
-                char comment[80];
+                char comment[80] = {0};
                 bool newk = false;
                 fits_read_keyword(fptr, const_cast<char*>(name.c_str()), value, comment, &status);
                 if (status != 0) {
@@ -794,7 +794,7 @@ bool edit_keyword(int argc, char* argv[], const std::string& file) {
             }
         } else {
             char value[80];
-            char comment[80];
+            char comment[80] = {0};
             bool newk = false;
             fits_read_keyword(fptr, const_cast<char*>(key.c_str()), value, comment, &status);
             if (status != 0) {
-- 
2.43.0


From fedbf36cf0c4c759b504e58cdfb2615dc058880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 191/209] fix: fitstool editkwd truncated numbers like '1e-3'
 and large integers

---
 tools/fitstool/fitstool.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index eb40294..a5687f8 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -665,14 +665,15 @@ bool write_keyword_value(fitsfile* fptr, bool newk, std::string name, std::strin
             fits::vif_check_cfitsio(status, "cannot update keyword '"+name+"'");
         }
     } else {
-        if (ends_with(new_value, ".") || find(new_value, ".") == npos) {
-            int di = d;
+        if ((ends_with(new_value, ".") || find(new_value, ".") == npos) &&
+            d == round(d) && std::abs(d) < 1e15) {
+            long di = d;
             if (newk) {
-                fits_write_key(fptr, TINT, const_cast<char*>(name.c_str()), &di, comment,
+                fits_write_key(fptr, TLONG, const_cast<char*>(name.c_str()), &di, comment,
                     &status);
                 fits::vif_check_cfitsio(status, "cannot write keyword '"+name+"'");
             } else {
-                fits_update_key(fptr, TINT, const_cast<char*>(name.c_str()), &di, comment,
+                fits_update_key(fptr, TLONG, const_cast<char*>(name.c_str()), &di, comment,
                     &status);
                 fits::vif_check_cfitsio(status, "cannot update keyword '"+name+"'");
             }
-- 
2.43.0


From 06954b65c22f819fc4523ff1f02dad9967467f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:14 +0000
Subject: [PATCH 192/209] fix: fitstool cpwcs crashed when the input file is
 not an image

---
 tools/fitstool/fitstool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/fitstool/fitstool.cpp b/tools/fitstool/fitstool.cpp
index a5687f8..88260b6 100644
--- a/tools/fitstool/fitstool.cpp
+++ b/tools/fitstool/fitstool.cpp
@@ -511,8 +511,8 @@ bool copy_wcs_header(int argc, char* argv[], const std::string& file) {
         }
     }
 
-    fitsfile* fptr1;
-    fitsfile* fptr2;
+    fitsfile* fptr1 = nullptr;
+    fitsfile* fptr2 = nullptr;
     int status = 0;
 
     try {
-- 
2.43.0


From b7aa58a8ac87f24198475efb257eb1a4e6bde5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:44 +0000
Subject: [PATCH 193/209] fix: fits2ascii wrote byte and boolean columns as
 unprintable characters

---
 tools/fits2ascii/fits2ascii.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fits2ascii/fits2ascii.cpp b/tools/fits2ascii/fits2ascii.cpp
index 9d89f56..e0f238d 100644
--- a/tools/fits2ascii/fits2ascii.cpp
+++ b/tools/fits2ascii/fits2ascii.cpp
@@ -134,7 +134,7 @@ do_next read_column(const std::string& in_file, const fits::column_info& cinfo,
         break;
     }
     case fits::column_info::byte : {
-        auto next = read_column<Dim,char>(in_file, cinfo.name, v, nrow, ids);
+        auto next = read_column<Dim,int_t>(in_file, cinfo.name, v, nrow, ids);
         if (next != do_next::run) return next;
         vtype = "byte";
         break;
-- 
2.43.0


From 51a6b6e7b558c24a189a05e9daee3c143dc2734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 194/209] fix: psffit crashed when the second coordinate is
 missing

---
 tools/psffit/psffit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/psffit/psffit.cpp b/tools/psffit/psffit.cpp
index d708067..65e2059 100644
--- a/tools/psffit/psffit.cpp
+++ b/tools/psffit/psffit.cpp
@@ -6,7 +6,7 @@ using namespace vif::astro;
 void print_help();
 
 int vif_main(int argc, char* argv[]) {
-    if (argc < 3) {
+    if (argc < 4) {
         print_help();
         return 0;
     }
-- 
2.43.0


From 0e3cc169827b745f09e635adf00d27daba894c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 195/209] fix: psffit fitted an arbitrary position when the
 coordinates cannot be read

---
 tools/psffit/psffit.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/psffit/psffit.cpp b/tools/psffit/psffit.cpp
index 65e2059..113bb6f 100644
--- a/tools/psffit/psffit.cpp
+++ b/tools/psffit/psffit.cpp
@@ -36,8 +36,11 @@ int vif_main(int argc, char* argv[]) {
     }
 
     float fx0, fy0;
-    from_string(argv[2], fx0);
-    from_string(argv[3], fy0);
+    if (!from_string(argv[2], fx0) || !from_string(argv[3], fy0)) {
+        error("could not read position '", argv[2], "', '", argv[3], "'");
+        return 1;
+    }
+
     int_t x0 = round(fx0), y0 = round(fy0);
 
     vec2d psf;
-- 
2.43.0


From 520d85ab90333386f4dbe997c943d263d8b425f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 196/209] fix: psffit wrote the residual to a file called '1'
 without background

---
 tools/psffit/psffit.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/psffit/psffit.cpp b/tools/psffit/psffit.cpp
index 113bb6f..7b50f95 100644
--- a/tools/psffit/psffit.cpp
+++ b/tools/psffit/psffit.cpp
@@ -62,6 +62,11 @@ int vif_main(int argc, char* argv[]) {
         idf = where(is_finite(img) && is_finite(err) && is_finite(psf));
     }
 
+    if (resi == "1") {
+        std::string outname = argv[1];
+        resi = outname.substr(0, outname.size() - length(".fits")) + "_res.fits";
+    }
+
     if (nobg) {
         auto res = linfit(img[idf], err[idf], psf[idf]);
 
@@ -86,11 +91,6 @@ int vif_main(int argc, char* argv[]) {
         }
 
         if (!resi.empty()) {
-            if (resi == "1") {
-                std::string outname = argv[1];
-                resi = outname.substr(0, outname.size() - length(".fits")) + "_res.fits";
-            }
-
             vec2d ires = img - res.params[1]*psf;
             fits::write(resi, ires);
         }
-- 
2.43.0


From 4d1241f2354ae803023f233ed1d4d049470ddbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 197/209] fix: subsrc set the whole image to NaN when one
 source has no position on the image

---
 tools/subsrc/subsrc.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/subsrc/subsrc.cpp b/tools/subsrc/subsrc.cpp
index 4b20594..22d6c4a 100644
--- a/tools/subsrc/subsrc.cpp
+++ b/tools/subsrc/subsrc.cpp
@@ -129,12 +129,20 @@ int vif_main(int argc, char* argv[]) {
         ascii::read_table(cat_file, cat.ra, cat.dec, cat.flux);
     }
 
-    print(cat.ra.size(), " sources to subtract from the image");
-
     astro::wcs w(hdr);
     vec1d x, y;
     astro::ad2xy(w, cat.ra, cat.dec, x, y);
 
+    // Ignore the sources that have no position on this image
+    vec1u idg = where(is_finite(x) && is_finite(y));
+    cat.ra = cat.ra[idg];
+    cat.dec = cat.dec[idg];
+    cat.flux = cat.flux[idg];
+    x = x[idg];
+    y = y[idg];
+
+    print(cat.ra.size(), " sources to subtract from the image");
+
     vec2d psf(img.dims);
     auto pg = progress_start(cat.ra.size());
     for (uint_t i : range(cat.ra)) {
-- 
2.43.0


From b25cdb73455a16da85f657320ca5f3cbae9e3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 198/209] fix: findsrc listed sources that do not exist when
 the catalog has fewer than requested

---
 tools/findsrc/findsrc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/findsrc/findsrc.cpp b/tools/findsrc/findsrc.cpp
index 74504e7..556bc7c 100644
--- a/tools/findsrc/findsrc.cpp
+++ b/tools/findsrc/findsrc.cpp
@@ -87,7 +87,7 @@ int vif_main(int argc, char* argv[]) {
     }
 
     if (xmatch) {
-        qxmatch_params p; p.nth = nsrc; p.brute_force = true;
+        qxmatch_params p; p.nth = std::min(nsrc, cra.size()); p.brute_force = true;
         auto res = qxmatch(tra, tdec, cra, cdec, p);
 
         id = res.id(_,0);
-- 
2.43.0


From 94809946a7736f34c20acf7df2459c51d844b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 199/209] fix: findsrc accepted source IDs that are not in the
 catalog

---
 tools/findsrc/findsrc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/findsrc/findsrc.cpp b/tools/findsrc/findsrc.cpp
index 556bc7c..4e24387 100644
--- a/tools/findsrc/findsrc.cpp
+++ b/tools/findsrc/findsrc.cpp
@@ -56,6 +56,11 @@ int vif_main(int argc, char* argv[]) {
             return 1;
         }
 
+        if (max(id) >= cra.size()) {
+            error("source ID is too large, only ", cra.size(), " sources available");
+            return 1;
+        }
+
         if (id.size() > 1) {
             d.resize(id.size());
             xmatch = false;
-- 
2.43.0


From bb93a2d451d351728887904468fb30852bf71a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:00 +0000
Subject: [PATCH 200/209] fix: qstack2 subpixel moved the sources away from the
 center of the cutouts

---
 tools/qstack2/qstack2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/qstack2/qstack2.cpp b/tools/qstack2/qstack2.cpp
index 1a90e3a..7a8926e 100644
--- a/tools/qstack2/qstack2.cpp
+++ b/tools/qstack2/qstack2.cpp
@@ -228,7 +228,7 @@ int vif_main(int argc, char* argv[]) {
 
     auto do_subpixel = [&cube](const vec1d& dx, const vec1d& dy) {
         for (uint_t i : range(dx)) {
-            cube(i,_,_) = translate(cube(i,_,_), dy[i], dx[i]);
+            cube(i,_,_) = translate(cube(i,_,_), -dy[i], -dx[i]);
         }
     };
 
-- 
2.43.0


From 32a305618e951fa3ec0ba1e10402526b26dd7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:40 +0000
Subject: [PATCH 201/209] fix: qmask shifted regions in physical coordinates by
 one pixel

---
 tools/qmask/qmask.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/qmask/qmask.cpp b/tools/qmask/qmask.cpp
index 8e2b445..6378b06 100644
--- a/tools/qmask/qmask.cpp
+++ b/tools/qmask/qmask.cpp
@@ -104,7 +104,15 @@ bool read_ds9_region_circles_physical(std::string file_name,
     bool physical = false;
     if (!read_ds9_region_circles(file_name, regs, physical, color)) return false;
 
-    if (physical) return true;
+    if (physical) {
+        // Subtract 1 from X and Y to go from FITS convention to C++ convention
+        for (uint_t i : range(regs.dims[0])) {
+            regs(i,0) -= 1;
+            regs(i,1) -= 1;
+        }
+
+        return true;
+    }
 
     astro::wcs w(fits::read_header(img_name));
     if (!w.is_valid()) {
-- 
2.43.0


From 49909cee8a7434ef0604d8713e73d9b7cb4ec592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:40 +0000
Subject: [PATCH 202/209] fix: qaper shifted regions in physical coordinates by
 one pixel

---
 tools/qaper/qaper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/qaper/qaper.cpp b/tools/qaper/qaper.cpp
index ee4cf11..7b720f9 100644
--- a/tools/qaper/qaper.cpp
+++ b/tools/qaper/qaper.cpp
@@ -109,7 +109,15 @@ bool read_ds9_region_circles_physical(std::string file_name,
     bool physical = false;
     if (!read_ds9_region_circles(file_name, regs, physical, color)) return false;
 
-    if (physical) return true;
+    if (physical) {
+        // Subtract 1 from X and Y to go from FITS convention to C++ convention
+        for (uint_t i : range(regs.dims[0])) {
+            regs(i,0) -= 1;
+            regs(i,1) -= 1;
+        }
+
+        return true;
+    }
 
     astro::wcs w(fits::read_header(img_name));
     if (!w.is_valid()) {
-- 
2.43.0


From adbd3ad5f62902d7c548ee448ddbb95c89843b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:18 +0000
Subject: [PATCH 203/209] fix: translate_bicubic ignored the default value and
 extrapolated outside of the image

---
 include/vif/astro/image.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 1892a73..4082946 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -151,6 +151,15 @@ namespace astro {
             trs.safe(_,y) = interpolate_3spline(trs.safe(_,y), t);
         }
 
+        // Pixels that come from outside of the image
+        for (uint_t x : range(v.dims[0]))
+        for (uint_t y : range(v.dims[1])) {
+            double sx = x - dx, sy = y - dy;
+            if (!(sx >= 0.0 && sx <= v.dims[0]-1.0 && sy >= 0.0 && sy <= v.dims[1]-1.0)) {
+                trs.safe(x,y) = def;
+            }
+        }
+
         return trs;
     }
 
-- 
2.43.0


From cdc4f1a9ba1a36c478fb9b7b02ae1a5f545ef386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 204/209] fix: get_pixel_size and get_image_rotation made up
 values for images without WCS information

---
 include/vif/astro/wcs.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 9fbd790..d7ad6a4 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -855,6 +855,11 @@ namespace astro {
             return false;
         }
 
+        // WCSLib also accepts headers without any coordinates
+        if (wcs.isset && (wcs.w->lng < 0 || wcs.w->lat < 0)) {
+            return false;
+        }
+
         uint_t naxis = wcs.axis_count();
         vec1d x, y;
         astro::ad2xy(wcs,
@@ -916,6 +921,11 @@ namespace astro {
             return false;
         }
 
+        // WCSLib also accepts headers without any coordinates
+        if (wcs.isset && (wcs.w->lng < 0 || wcs.w->lat < 0)) {
+            return false;
+        }
+
         uint_t naxis = wcs.axis_count();
         vec1d x, y;
         astro::ad2xy(wcs,
-- 
2.43.0


From 54e9bdfde116f3d09423c67248551886f1a50729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 205/209] fix: get_image_rotation could not read images that
 are not in the primary HDU

---
 include/vif/astro/wcs.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index d7ad6a4..9fb98ef 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -953,7 +953,16 @@ namespace astro {
             vec1s sects = fits::read_sectfits(file);
             return get_image_rotation(sects[0], angle);
         } else {
-            fits::header hdr = fits::read_header(file);
+            fits::input_image iimg(file);
+            fits::header hdr;
+            for (uint_t i : range(iimg.hdu_count())) {
+                iimg.reach_hdu(i);
+                if (iimg.axis_count() != 0) {
+                    hdr = iimg.read_header();
+                    break;
+                }
+            }
+
             auto wcs = astro::wcs(hdr);
             if (!get_image_rotation(wcs, angle)) {
                 warning("could not extract WCS information");
-- 
2.43.0


From 0af6f45101639425c7482f1dca03c7f79ee85987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:24 +0000
Subject: [PATCH 206/209] fix: explicit conversion of vectors to booleans
 truncated the values to 8 bits

---
 include/vif/core/vec.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 448993f..b60609c 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -126,10 +126,9 @@ namespace vif {
         explicit vec(const vec<Dim,T>& v) : dims(v.dims), safe(*this) {
             static_assert(meta::vec_explicit_convertible<meta::rtype_t<T>,Type>::value,
                 "could not construct vector from non-convertible type");
-            using other_dtype = typename vec<Dim,T>::dtype;
             data.resize(v.data.size());
             for (uint_t i : range(v)) {
-                data[i] = static_cast<other_dtype>(v.safe[i]);
+                data[i] = static_cast<Type>(v.safe[i]);
             }
         }
 
-- 
2.43.0


From 2a724740e8cc8b7290fc17883470e4d4c5f37e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:25 +0000
Subject: [PATCH 207/209] fix: initializer lists stored invalid values in
 vectors of booleans

---
 include/vif/core/bits/initializer_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/initializer_list.hpp b/include/vif/core/bits/initializer_list.hpp
index 81126b9..a61c65c 100644
--- a/include/vif/core/bits/initializer_list.hpp
+++ b/include/vif/core/bits/initializer_list.hpp
@@ -34,7 +34,7 @@ namespace vec_ilist {
         static void fill_(vec<Dim,Type>& v, meta::nested_initializer_list<1,dtype> il, uint_t& idx, meta::cte_t<Dim-1>) {
             vif_check(il.size() == v.dims[Dim-1], "heterogeneous intializer lists are not allowed");
             for (auto& t : il) {
-                v.data[idx] = t;
+                v.data[idx] = static_cast<Type>(t);
                 ++idx;
             }
         }
-- 
2.43.0


From 63ed75800fe965ee616a23fe29943874d4322450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 208/209] fix: reading byte images and columns as booleans
 produced invalid booleans

FITS bytes other than 0 and 1 were copied as they are into vectors of booleans
and bool variables: comparing the result with 'true', or reading the scalar, was
undefined. Any non-zero byte is now read as true.
---
 include/vif/io/fits/base.hpp  | 19 +++++++++++++++++++
 include/vif/io/fits/image.hpp |  3 +++
 include/vif/io/fits/table.hpp |  4 ++++
 3 files changed, 26 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index c692007..67b0383 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -2,6 +2,7 @@
 #define VIF_IO_FITS_BASE_HPP
 
 #include <string>
+#include <cstring>
 #include "vif/core/vec.hpp"
 #include "vif/core/print.hpp"
 #include "vif/core/error.hpp"
@@ -144,6 +145,24 @@ namespace impl {
             }
         };
 
+        // Booleans are read as bytes, which can hold any value. Values other than 0 and 1 are not
+        // valid booleans, so make sure every non-zero value is read as 'true'.
+        template<typename T>
+        void normalize_(T&) {}
+
+        inline void normalize_(bool& v) {
+            unsigned char c;
+            std::memcpy(&c, &v, 1);
+            v = (c != 0);
+        }
+
+        template<std::size_t Dim>
+        void normalize_(vec<Dim,bool>& v) {
+            for (auto& c : v.data) {
+                c = (c != 0);
+            }
+        }
+
         template<>
         struct traits<uint_t> {
             using dtype = uint_t;
diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index d05ad90..5dab657 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -135,6 +135,7 @@ namespace fits {
             fits_read_img(fptr_, impl::fits_impl::traits<Type>::ttype, 1, v.size(),
                 null_value_(def, type), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read image from HDU");
+            impl::fits_impl::normalize_(v);
         }
 
         template<std::size_t Dim, typename Type, typename ... Args>
@@ -162,6 +163,7 @@ namespace fits {
             fits_read_subset(fptr_, impl::fits_impl::traits<Type>::ttype, fpixel.data(), lpixel.data(),
                 inc.data(), null_value_(def, type), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read subset image from HDU");
+            impl::fits_impl::normalize_(v);
         }
 
         template<typename Type = double>
@@ -195,6 +197,7 @@ namespace fits {
             fits_read_img(fptr_, impl::fits_impl::traits<Type>::ttype, ppos, 1,
                 null_value_(def, type), &val, &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not pixel from HDU");
+            impl::fits_impl::normalize_(val);
 
             return val;
         }
diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 1aca03e..43dc160 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -400,6 +400,7 @@ namespace fits {
                 null_value_(def, column_type_(cid)), v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
+            impl::fits_impl::normalize_(v);
         }
 
         template<typename Type>
@@ -413,6 +414,7 @@ namespace fits {
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
+            impl::fits_impl::normalize_(v);
         }
 
         template<std::size_t Dim>
@@ -919,6 +921,7 @@ namespace fits {
                 null_value_(def, column_type_(cid)), v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read elements from column '"+cname+"'");
+            impl::fits_impl::normalize_(v);
         }
 
         template<typename Type>
@@ -932,6 +935,7 @@ namespace fits {
                 null_value_(def, column_type_(cid)), reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
+            impl::fits_impl::normalize_(v);
         }
 
         void read_elements_impl_(const table_read_options&, std::string& v, const std::string& cname,
-- 
2.43.0


From ce544c2a7dc39cfa761220d49b191788226157a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:16 +0000
Subject: [PATCH 209/209] fix: update_elements crashed with vectors of strings

The vector of std::string was given to CFITSIO as if it was an array of char*.
---
 include/vif/io/fits/table.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 43dc160..a3b3c5b 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1712,6 +1712,23 @@ namespace fits {
             fits::vif_check_cfitsio(status_, "could not update elements in column '"+tcolname+"'");
         }
 
+        template<std::size_t Dim>
+        void update_elements_impl_(const std::string& tcolname, int cid,
+            const vec<Dim,std::string>& value, long firstrow, long firstelem) {
+
+            // cfitsio doesn't like writing empty columns
+            if (value.empty()) return;
+
+            std::vector<char*> buffer;
+            for (auto& s : value) {
+                buffer.push_back(const_cast<char*>(s.c_str()));
+            }
+
+            fits_write_col(fptr_, TSTRING, cid, firstrow, firstelem, value.size(), buffer.data(),
+                &status_);
+            fits::vif_check_cfitsio(status_, "could not update elements in column '"+tcolname+"'");
+        }
+
         template<typename Type, typename enable = typename std::enable_if<
             !meta::is_vec<Type>::value>::type
         >
-- 
2.43.0

