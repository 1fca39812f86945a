From 214e806c23db37d21327f44d88bcbc55e1ec9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 01/28] fix: adjacent_find on an empty range reads out of
 bounds

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..0b4b6ad 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From 801c66b02a34c9cc7d00a942ca77a9f3f7487c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 02/28] fix: find_end with a pattern longer than the range
 reads out of bounds

---
 include/parlay/primitives.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 0b4b6ad..772fc2e 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -701,7 +701,8 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   size_t n2 = parlay::size(r2);
 
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
-  if (n2 == 0) return std::end(r1);
+  // and there can be no match if the pattern is longer than the range
+  if (n2 == 0 || n2 > n1) return std::end(r1);
 
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
-- 
2.43.0


From 5ef57c685f95d8ffb51ceed31668b6b8f2b56785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 03/28] fix: find_first_of passes its arguments to the
 predicate in the wrong order

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 772fc2e..5a7e05f 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -614,7 +614,7 @@ auto find_first_of(R1&& r1, R2&& r2, BinaryPredicate&& p) {
   static_assert(is_random_access_range_v<R2>);
   static_assert(std::is_invocable_r_v<bool, BinaryPredicate, range_reference_type_t<R1>, range_reference_type_t<R2>>);
   return std::begin(r1) + internal::find_if_index(parlay::size(r1), [&, it = std::begin(r1)] (size_t i) {
-    return find_if(r2, [&, it](auto&& x) { return p(std::forward<decltype(x)>(x), it[i]); }) != std::end(r2);
+    return find_if(r2, [&, it](auto&& x) { return p(it[i], std::forward<decltype(x)>(x)); }) != std::end(r2);
   });
 }
 
-- 
2.43.0


From b4965392652b5e8da8dc44519099ca7072f3b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 04/28] fix: kth_smallest recurses forever on many equivalent
 elements that do not compare ==

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 5a7e05f..03c8753 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1288,7 +1288,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From db0157b6c341d1f9db357792f2f17cd1a75dc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 05/28] fix: comparing sequences of elements larger than 8192
 bytes never terminates

---
 include/parlay/sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..086bdf4 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -662,7 +662,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = 1 + (1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From 4c19dfc3e61153876d94c8760cc9e1d22626f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 06/28] fix: relocating elements larger than 8192 bytes divides
 by zero

---
 include/parlay/relocation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..027a6da 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,7 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    constexpr size_t chunk_size = 1 + (1024 * sizeof(size_t) / sizeof(T));
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
-- 
2.43.0


From d67c8dc3bb6a7014081cdd4c88d9e232be65937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 07/28] fix: sequence operations given a reference to one of
 their own elements use it after it was relocated

---
 include/parlay/sequence.h | 41 +++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 086bdf4..91ce793 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -232,6 +232,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (p == end()) {
       return emplace_back(std::forward<Args>(args)...);
     } else {
+      // The arguments might refer to an element of this sequence, so the
+      // new element has to be created before anything is relocated
+      value_type v(std::forward<Args>(args)...);
+
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
@@ -242,7 +246,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -250,6 +254,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
+    if constexpr (std::is_move_constructible_v<value_type>) {
+      if (size() == capacity()) {
+        // The arguments might refer to an element of this sequence, so the
+        // new element has to be created before the buffer is reallocated
+        value_type v(std::forward<Args>(args)...);
+        storage.ensure_capacity(size() + 1);
+        storage.initialize(end(), std::move(v));
+        storage.set_size(size() + 1);
+        return end() - 1;
+      }
+    }
     storage.ensure_capacity(size() + 1);
     storage.initialize(end(), std::forward<Args>(args)...);
     storage.set_size(size() + 1);
@@ -373,12 +388,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
     } else {
-      storage.ensure_capacity(new_size);
-      assert(storage.capacity() >= new_size);
-      auto buffer = storage.data();
-      parallel_for(
-          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
-          copy_granularity(new_size - current));
+      append_n(new_size - current, v);
     }
     storage.set_size(new_size);
   }
@@ -398,8 +408,9 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   void assign(size_t n, const value_type& v) {
+    value_type copy(v);    // v might refer to an element of this sequence
     storage.clear();
-    return initialize_fill(n, v);
+    return initialize_fill(n, copy);
   }
 
   void assign(std::initializer_list<value_type> l) { assign(std::begin(l), std::end(l)); }
@@ -588,7 +599,13 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (size() + n > capacity()) {
+      // t might refer to an element of this sequence, so it
+      // has to be copied before the buffer is reallocated
+      value_type copy(t);
+      storage.ensure_capacity(size() + n);
+      return append_n(n, copy);
+    }
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -630,6 +647,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator insert_n(iterator p, size_t n, const value_type& v) {
+    // v might refer to an element of this sequence, so it has
+    // to be copied before anything is relocated
+    value_type copy(v);
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
@@ -640,7 +661,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     // append since we ensured that there was sufficient capacity already,
     // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    auto it = append_n(n, copy);
     append(std::move(the_tail));
     return it;
   }
-- 
2.43.0


From cc4f181874a5964e27053efdf9bb25b16683db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 08/28] fix: sequence::insert of zero copies may return a
 dangling iterator

---
 include/parlay/sequence.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 91ce793..031ab82 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -657,13 +657,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, copy);
+    append_n(n, copy);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;
   }
 
   template<typename Iterator_>
-- 
2.43.0


From fda7a4d1f99504d3c12e13fdb35832be2683d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 09/28] fix: parallel_for over an empty range that starts at
 the largest index calls its function

---
 include/parlay/parallel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..b6d53d1 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -192,7 +192,7 @@ template <typename F>
 inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool conservative) {
   static_assert(std::is_invocable_v<F&, size_t>);
 
-  if (start + 1 == end) {
+  if (start < end && end - start == 1) {
     f(start);
   }
   else if ((end - start) <= static_cast<size_t>(granularity)) {
-- 
2.43.0


From 156f31fbc1e3824eb6e220de017e143e1b59f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 10/28] fix: identities of the minimum and maximum monoids are
 not neutral for infinities

---
 include/parlay/monoid.h | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/parlay/monoid.h b/include/parlay/monoid.h
index 9498847..f58858f 100644
--- a/include/parlay/monoid.h
+++ b/include/parlay/monoid.h
@@ -68,6 +68,25 @@ inline constexpr bool is_monoid_for_v = is_monoid_for<Monoid_, T>::value;
 
 // ----------------------------- Definitions -------------------------------------------
 
+namespace internal {
+
+// The identities of the maximum and of the minimum of values of type T. For
+// types that have infinities, no finite value is neutral.
+
+template<typename T>
+constexpr T max_identity() {
+  if constexpr (std::numeric_limits<T>::has_infinity) return -std::numeric_limits<T>::infinity();
+  else return std::numeric_limits<T>::lowest();
+}
+
+template<typename T>
+constexpr T min_identity() {
+  if constexpr (std::numeric_limits<T>::has_infinity) return std::numeric_limits<T>::infinity();
+  else return (std::numeric_limits<T>::max)();
+}
+
+}  // namespace internal
+
 // Built-in monoids with sensible default identities
 
 template<typename T>
@@ -129,7 +148,7 @@ struct bit_and : public std::bit_and<> {
 template<typename T>
 struct maximum {
   T identity;
-  maximum() : identity(std::numeric_limits<T>::lowest()) { }
+  maximum() : identity(internal::max_identity<T>()) { }
   explicit maximum(T identity_) : identity(std::move(identity_)) { }
   template<typename T1, typename T2>
   T operator()(T1&& x, T2&& y) const { return std::max<T>(std::forward<T1>(x), std::forward<T2>(y)); }
@@ -138,7 +157,7 @@ struct maximum {
 template<typename T>
 struct minimum {
   T identity;
-  minimum() : identity(std::numeric_limits<T>::max()) { }
+  minimum() : identity(internal::min_identity<T>()) { }
   explicit minimum(T identity_) : identity(std::move(identity_)) { }
   template<typename T1, typename T2>
   T operator()(T1&& x, T2&& y) const { return std::min<T>(std::forward<T1>(x), std::forward<T2>(y)); }
@@ -265,7 +284,7 @@ struct addm {
 template <class TT>
 struct maxm {
   using T = TT;
-  maxm() : identity(std::numeric_limits<T>::lowest()) {}
+  maxm() : identity(internal::max_identity<T>()) {}
   T identity;
   static T f(T a, T b) { return (std::max)(a, b); }
 };
@@ -273,7 +292,7 @@ struct maxm {
 template <class T1, class T2>
 struct maxm<std::pair<T1, T2>> {
   using T = std::pair<T1, T2>;
-  maxm() : identity(std::make_pair(std::numeric_limits<T1>::lowest(), std::numeric_limits<T2>::lowest())) {}
+  maxm() : identity(std::make_pair(internal::max_identity<T1>(), internal::max_identity<T2>())) {}
   T identity;
   static T f(T a, T b) { return (std::max)(a, b); }
 };
@@ -281,7 +300,7 @@ struct maxm<std::pair<T1, T2>> {
 template <class TT>
 struct minm {
   using T = TT;
-  minm() : identity((std::numeric_limits<T>::max)()) {}
+  minm() : identity(internal::min_identity<T>()) {}
   T identity;
   static T f(T a, T b) { return (std::min)(a, b); }
 };
@@ -289,7 +308,7 @@ struct minm {
 template <class T1, class T2>
 struct minm<std::pair<T1, T2>> {
   using T = std::pair<T1, T2>;
-  minm() : identity(std::make_pair((std::numeric_limits<T1>::max)(), (std::numeric_limits<T2>::max)())) {}
+  minm() : identity(std::make_pair(internal::min_identity<T1>(), internal::min_identity<T2>())) {}
   T identity;
   static T f(T a, T b) { return (std::min)(a, b); }
 };
@@ -305,7 +324,7 @@ struct xorm {
 template <class TT>
 struct minmaxm {
   using T = std::pair<TT, TT>;
-  minmaxm() : identity(T((std::numeric_limits<TT>::max)(), (std::numeric_limits<TT>::lowest)())) {}
+  minmaxm() : identity(T(internal::min_identity<TT>(), (std::numeric_limits<TT>::lowest)())) {}
   T identity;
   static T f(T a, T b) {
     return T((std::min)(a.first, b.first), (std::max)(a.second, b.second));
-- 
2.43.0


From 287fffe5ec1cc3a563328a40b270f46d7088173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 11/28] fix: group_by_index truncates positions to the type of
 the number of buckets

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..2a92f47 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -331,7 +331,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From f0add0571f7a33f522d05d26be7697f50f4fba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 12/28] fix: histogram_by_index and reduce_by_index of an empty
 range divide by zero

---
 include/parlay/internal/collect_reduce.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..6af7400 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -50,6 +50,8 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   using result_type = decltype(helper.init());
   size_t n = A.size();
 
+  if (n == 0) return seq_collect_reduce(A, helper, num_buckets);
+
   size_t num_threads = num_workers();
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
   size_t block_size = ((n - 1) / num_blocks_) + 1;
-- 
2.43.0


From d031f952da61b3968b4ffa18177fcab9e7eaf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 13/28] fix: integer_sort fails when the largest key is the
 maximum of size_t

---
 include/parlay/internal/integer_sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..bae2c18 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -6,6 +6,7 @@
 #include <cstdio>
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -330,7 +331,8 @@ sequence<size_t> integer_sort_(slice<InIterator, InIterator> In,
   if (bits == 0) {
     auto get_key = [&](size_t i) { return static_cast<size_t>(g(In[i])); };
     auto keys = delayed_seq<size_t>(In.size(), get_key);
-    bits = log2_up(internal::reduce(make_slice(keys), maximum<size_t>()) + 1);
+    auto max_key = internal::reduce(make_slice(keys), maximum<size_t>());
+    bits = (max_key == (std::numeric_limits<size_t>::max)()) ? std::numeric_limits<size_t>::digits : log2_up(max_key + 1);
   }
   return integer_sort_r<inplace_tag, assignment_tag>(
     In, Out, Tmp, g, bits, num_buckets);
-- 
2.43.0


From 3402cfa96a114b9f3ee56c4dec7b6aeadaec6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 14/28] fix: memory usage statistics do not return to their
 value after large blocks are freed

---
 include/parlay/internal/pool_allocator.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..d2a306f 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -58,11 +58,22 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The number of bytes that a large block of n bytes counts for in the usage statistics.
+  // It must be the same for every n that might be passed to deallocate for the same block,
+  // i.e., for all sizes from the same pool, and, since p_free only knows the size up to the
+  // next power of two, for all sizes that round up to the same power of two.
+  size_t accounted_size(size_t n) const {
+    if (n > max_size) return size_t{1} << log2_up(n);
+    size_t bucket = num_small;
+    while (n > sizes[bucket]) bucket++;
+    return sizes[bucket];
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
+    large_used += accounted_size(n);
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
@@ -79,15 +90,15 @@ struct pool_allocator {
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += accounted_size(n);
     return a;
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
+    large_used -= accounted_size(n);
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= accounted_size(n);
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
-- 
2.43.0


From c64a49ff7444fcb978e146d5e6cb3d2b4cac51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 15/28] fix: allocating zero objects of an over-aligned type
 fails an assertion

---
 include/parlay/alloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/alloc.h b/include/parlay/alloc.h
index 7d91981..a69b262 100644
--- a/include/parlay/alloc.h
+++ b/include/parlay/alloc.h
@@ -165,12 +165,12 @@ struct allocator {
     else {
       // Should be suitably aligned for alignments up to pool_allocator::max_alignment
       void* buffer = internal::get_default_allocator().allocate(n * sizeof(T));
-      assert(reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
+      assert(n == 0 || reinterpret_cast<uintptr_t>(buffer) % alignof(T) == 0);
       return static_cast<T*>(buffer);
     }
   }
   void deallocate(T* ptr, [[maybe_unused]] size_t n) {
-    assert(reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);
+    assert(n == 0 || reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);
     if constexpr (alignof(T) > internal::pool_allocator::max_alignment) {
       p_free(static_cast<void*>(ptr));
     }
-- 
2.43.0


From 25b9043173a07c16809ee8804cdaf9130ee586d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 16/28] fix: elements of over-aligned types are stored
 misaligned in a sequence

---
 include/parlay/internal/sequence_base.h | 36 ++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1f85a47..0ef9a3c 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -279,16 +279,44 @@ struct alignas(uint64_t) sequence_base {
           alignas(value_type) std::byte data[1];
         };
 
+        // An allocator of bytes does not have to return storage that is suitable for
+        // over-aligned elements, so their storage is allocated in over-aligned chunks
+        static constexpr bool over_aligned = alignof(value_type) > alignof(std::max_align_t);
+
+        struct chunk {
+          alignas(value_type) std::byte bytes[alignof(value_type)];
+        };
+
+        using chunk_allocator_type = typename std::allocator_traits<raw_allocator_type>::template rebind_alloc<chunk>;
+
+        static constexpr size_t num_chunks(size_t buffer_size) {
+          return (buffer_size + sizeof(chunk) - 1) / sizeof(chunk);
+        }
+
         static header* create(size_t capacity, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
-          std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
-          return new (bytes) header(capacity);
+          if constexpr (over_aligned) {
+            chunk_allocator_type chunk_allocator(a);
+            chunk* chunks = std::allocator_traits<chunk_allocator_type>::allocate(chunk_allocator, num_chunks(buffer_size));
+            return new (static_cast<void*>(chunks)) header(capacity);
+          }
+          else {
+            std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
+            return new (bytes) header(capacity);
+          }
         }
 
         static void destroy(header* p, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);
-          std::byte* bytes = reinterpret_cast<std::byte*>(p);
-          std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          if constexpr (over_aligned) {
+            chunk_allocator_type chunk_allocator(a);
+            chunk* chunks = reinterpret_cast<chunk*>(p);
+            std::allocator_traits<chunk_allocator_type>::deallocate(chunk_allocator, chunks, num_chunks(buffer_size));
+          }
+          else {
+            std::byte* bytes = reinterpret_cast<std::byte*>(p);
+            std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          }
         }
 
         explicit header(size_t _capacity) : capacity(_capacity) {}
-- 
2.43.0


From 9c34baecec886cd0f3471b95dbe06cb39631814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 17/28] fix: remove_duplicate_integers returns every integer
 for long inputs

When the partial results of several blocks are combined, update is called
with the flag of the block, which may be false, but set the result to true
regardless.
---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 2a92f47..2ece1ef 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -277,7 +277,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From 0e15897de7b1ae44019cfbf966816c016ada2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 18/28] fix: the identity of minmaxm is not neutral for
 negative infinity

---
 include/parlay/monoid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/monoid.h b/include/parlay/monoid.h
index f58858f..38b9335 100644
--- a/include/parlay/monoid.h
+++ b/include/parlay/monoid.h
@@ -324,7 +324,7 @@ struct xorm {
 template <class TT>
 struct minmaxm {
   using T = std::pair<TT, TT>;
-  minmaxm() : identity(T(internal::min_identity<TT>(), (std::numeric_limits<TT>::lowest)())) {}
+  minmaxm() : identity(T(internal::min_identity<TT>(), internal::max_identity<TT>())) {}
   T identity;
   static T f(T a, T b) {
     return T((std::min)(a.first, b.first), (std::max)(a.second, b.second));
-- 
2.43.0


From db0b76f06c162d0c2ade63fdd8f87827a46443a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 19/28] fix: parsing denormal floating-point numbers throws
 out_of_range

The slow path used std::stod, which reports underflow of strtod as an
exception, so the formatted form of a denormal number could not be read back.
---
 include/parlay/io.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 82443d1..3118ed4 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -6,6 +6,7 @@
 #include <cinttypes>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 
 #include <algorithm>
@@ -146,7 +147,7 @@ Integer_ chars_to_int_t(slice<It_, It_> str) {
 // Significantly faster than std::stod if the number
 // is not too big since we can just read the digits and
 // divide or multiple exactly.  Otherwise we fall back
-// to std::stod / std::stof / std::stold.
+// to std::strtod / std::strtof / std::strtold.
 template<typename Float_, size_t max_len, int64_t max_exp, int64_t max_man, typename FallbackF>
 Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
 
@@ -237,7 +238,7 @@ Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
     }
   }
   
-  // Slow path: Just fall back to std::stof/std::stod/std::stold
+  // Slow path: Just fall back to std::strtof/std::strtod/std::strtold
   return fallback(s);
 }
 
@@ -254,17 +255,17 @@ inline unsigned long long chars_to_ulong_long(const chars& s) { return internal:
 
 inline float chars_to_float(const chars& s) {
   return internal::chars_to_float_t<float, 10, 10, 24>(s, [](const auto& str) {
-    return std::stof(std::string(std::begin(str), std::end(str))); });
+    return std::strtof(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 inline double chars_to_double(const chars& s) {
   return internal::chars_to_float_t<double, 18, 22, 53>(s, [](const auto& str) {
-    return std::stod(std::string(std::begin(str), std::end(str))); });
+    return std::strtod(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 inline long double chars_to_long_double(const chars& s) {
   return internal::chars_to_float_t<long double, 18, 22, 53>(s, [](const auto& str) {
-    return std::stold(std::string(std::begin(str), std::end(str))); });
+    return std::strtold(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 
-- 
2.43.0


From cf52540249519e129b7f2921364fbb024c04f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 20/28] fix: mapping an empty file fails

---
 include/parlay/internal/posix/file_map_impl_posix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/posix/file_map_impl_posix.h b/include/parlay/internal/posix/file_map_impl_posix.h
index a6c15e5..e9cef43 100644
--- a/include/parlay/internal/posix/file_map_impl_posix.h
+++ b/include/parlay/internal/posix/file_map_impl_posix.h
@@ -47,8 +47,12 @@ class file_map {
       assert(fstat_res != -1);
       assert(S_ISREG(sb.st_mode));
     
-      char *p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
-      assert(p != MAP_FAILED);
+      // An empty file can not be mapped
+      char *p = nullptr;
+      if (sb.st_size > 0) {
+        p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
+        assert(p != MAP_FAILED);
+      }
       [[maybe_unused]] int close_p = ::close(fd);
       assert(close_p != -1);
       
-- 
2.43.0


From f34a8099eaab8a241323a975aa61cd0252540866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 21/28] fix: hashtable::count and hashtable::get_index do not
 compile

They passed a legacy monoid to functions that take the new kind.
---
 include/parlay/hash_table.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..85fc5ac 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -8,6 +8,7 @@
 #include <iostream>
 
 #include "delayed_sequence.h"
+#include "monoid.h"
 #include "parallel.h"
 #include "sequence.h"
 #include "slice.h"
@@ -226,7 +227,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +261,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0


From fa244666db0ce75816405ddff451f85235317035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 22/28] fix: deletion from a hashtable loses entries of
 clusters longer than half the table

Whether an entry may be moved back was decided by the shorter way around the
table between two indices, which is wrong for entries that are further than
half the table from their first index.
---
 include/parlay/hash_table.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 85fc5ac..b3c3c15 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -55,10 +55,13 @@ class hashtable {
   index firstIndex(kType v) { return hashToRange(hashStruct.hash(v)); }
   index incrementIndex(index h) { return (h + 1 == m) ? 0 : h + 1; }
   index decrementIndex(index h) { return (h == 0) ? m - 1 : h - 1; }
-  bool lessIndex(index a, index b) {
-    return (a < b) ? (2 * (b - a) < m) : (2 * (a - b) > m);
+  // number of steps from a forward to b, going around the end of the table
+  index distance(index a, index b) { return (a <= b) ? b - a : b + m - a; }
+  // true if the probe sequence of the key v, found at index k, starts after index j,
+  // i.e., in (j, k]. Then v can not be moved to j, since it would not be found there
+  bool startsAfter(kType v, index j, index k) {
+    return distance(firstIndex(v), k) < distance(j, k);
   }
-  bool lessEqIndex(index a, index b) { return a == b || lessIndex(a, b); }
 
  public:
   // Size is the maximum number of values the hash table will hold.
@@ -170,14 +173,14 @@ class hashtable {
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
         eType x = TA[jj];
-        while (x != empty && lessIndex(j, firstIndex(hashStruct.getKey(x)))) {
+        while (x != empty && startsAfter(hashStruct.getKey(x), j, jj)) {
           jj = incrementIndex(jj);
           x = TA[jj];
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
           eType y = TA[jjj];
-          if (y == empty || !lessIndex(j, firstIndex(hashStruct.getKey(y)))) {
+          if (y == empty || !startsAfter(hashStruct.getKey(y), j, jjj)) {
             x = y;
             jj = jjj;
           }
-- 
2.43.0


From e345d61082c480b983b7818fbddd80fe4b7a096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 23/28] fix: blocked_for skips the range if the block size
 overflows the size computation

---
 include/parlay/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index b6d53d1..d139739 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -66,10 +66,10 @@ inline void blocked_for(size_t start, size_t end, size_t block_size, F&& f, bool
   static_assert(std::is_invocable_v<F&, size_t, size_t, size_t>);
   assert(block_size > 0);
   if (start < end) {
-    size_t n_blocks = (end - start + block_size - 1) / block_size;
+    size_t n_blocks = 1 + (end - start - 1) / block_size;
     parallel_for(0, n_blocks, [&](size_t i) {
       size_t s = start + i * block_size;
-      size_t e = (std::min)(s + block_size, end);
+      size_t e = s + (std::min)(block_size, end - s);
       f(i, s, e);
     }, 0, conservative);
   }
-- 
2.43.0


From 0380809b303eaefa7f05a27e698947c1e26779ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 24/28] fix: delayed::flatten reads out of bounds if trailing
 blocks of the input begin no output block

---
 include/parlay/internal/delayed/flatten.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..57cca46 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -201,8 +201,8 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
-        size_t outer_idx = out_block_offsets[out_block_id];
-        if (outer_idx < block_end) {
+        if (out_block_id < out_block_offsets.size() && out_block_offsets[out_block_id] < block_end) {
+          size_t outer_idx = out_block_offsets[out_block_id];
           auto outer_it = begin_block(base_view(), i);
           std::advance(outer_it, outer_idx - block_start);
 
-- 
2.43.0


From b139152f5d0f845fe4a86abcce6035e564be8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:43 +0000
Subject: [PATCH 25/28] fix: copying or moving a delayed::flatten of
 temporaries leaves it referring to the original

---
 include/parlay/internal/delayed/flatten.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 57cca46..f88d62c 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -244,7 +244,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -255,7 +255,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
@@ -273,7 +273,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
+  // Owns the copied sequence, so that it stays valid when this view is copied or moved
   flattener_type result;
 };
 
-- 
2.43.0


From 350ac70a958d30f95361b68710c556f38d3e085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 26/28] fix: moving a delayed::filter of a temporary view
 leaves iterators into the moved view

---
 include/parlay/internal/delayed/filter.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..64a4d0e 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -48,10 +48,13 @@ struct block_delayed_filter_t :
   block_delayed_filter_t(const block_delayed_filter_t& other) : base(other), p(other.p),
     result(flattener_type{filter_blocks(base_view(), p), 0}, dereference{}) { }
 
-  block_delayed_filter_t(block_delayed_filter_t&&) noexcept(
+  // Likewise, moving an underlying view that is held by value invalidates the stored iterators
+  block_delayed_filter_t(block_delayed_filter_t&& other) noexcept(
+    std::is_reference_v<UnderlyingView>                                             &&
     std::is_nothrow_move_constructible_v<base>                                      &&
     std::is_nothrow_move_constructible_v<copyable_function_wrapper<UnaryPredicate>> &&
-    std::is_nothrow_move_constructible_v<mapper_type>) = default;
+    std::is_nothrow_move_constructible_v<mapper_type>) : base(std::move(other)), p(std::move(other.p)),
+    result(move_result(std::move(other.result))) { }
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
@@ -78,6 +81,16 @@ struct block_delayed_filter_t :
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
+  template<typename Result>
+  auto move_result(Result&& other_result) {
+    if constexpr (std::is_reference_v<UnderlyingView>) {
+      return mapper_type(std::forward<Result>(other_result));
+    }
+    else {
+      return mapper_type(flattener_type{filter_blocks(base_view(), p), 0}, dereference{});
+    }
+  }
+
   template<typename UV, typename UP>
   auto filter_blocks(UV&& v, UP&& p) {
     size_t temp_size = (std::min<size_t>)(parlay::size(v), block_size);
-- 
2.43.0


From 7412b283152c197e2da75c4fac5bf4baad1026ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 27/28] fix: delayed::scan_inclusive of a single block reads
 past its block sums

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..7738533 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(n_blocks+1, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From bcd976c01304b9fb4983ae0efee6256790c38a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 28/28] fix: moving an uninitialized_sequence frees storage it
 does not have

---
 include/parlay/internal/uninitialized_sequence.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/parlay/internal/uninitialized_sequence.h b/include/parlay/internal/uninitialized_sequence.h
index 1d24560..395b3b8 100644
--- a/include/parlay/internal/uninitialized_sequence.h
+++ b/include/parlay/internal/uninitialized_sequence.h
@@ -64,7 +64,7 @@ class uninitialized_sequence {
                n(_n),
                data(std::allocator_traits<allocator_type>::allocate(*this, n)) { }
     ~uninitialized_sequence_impl() {
-      std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+      if (data != nullptr) std::allocator_traits<allocator_type>::deallocate(*this, data, n);
     }
 
     // Delete copy for uninitialized sequences
@@ -78,22 +78,21 @@ class uninitialized_sequence {
       other.n = 0;
     }
 
-    // Move assigning an uninitialized sequence clears the current sequence
-    // (without destruction) and swaps it with the given other sequence
+    // Move assigning an uninitialized sequence swaps it with the given other
+    // sequence, which becomes responsible for the storage of this one
     uninitialized_sequence_impl& operator=(uninitialized_sequence_impl&& other) noexcept {
 #ifdef PARLAY_DEBUG_UNINITIALIZED
       // If uninitialized memory debugging is turned on, make sure that
       // each object of type UninitializedTracker is destroyed or still
       // uninitialized by the time this sequence is destroyed
-      auto buffer = impl.data;
-      parallel_for(0, impl.n, [&](size_t i) {
+      auto buffer = data;
+      parallel_for(0, n, [&](size_t i) {
         PARLAY_ASSERT_UNINITIALIZED(buffer[i]);
       });
 #endif
-      n = 0;
-      data = nullptr;
       std::swap(n, other.n);
       std::swap(data, other.data);
+      return *this;
     }
 
   } impl;
-- 
2.43.0

