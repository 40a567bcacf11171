From 4f8db6ed015ca8434057d2173bb5105c7e144be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 01/45] fix: sorting_network_sorter domain covers every
 available size

Specializations exist for 0 through 64 elements, yet the domain stopped at 32.
---
 include/cpp-sort/fixed/sorting_network_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/fixed/sorting_network_sorter.h b/include/cpp-sort/fixed/sorting_network_sorter.h
index 191ac40..d4cf5dc 100644
--- a/include/cpp-sort/fixed/sorting_network_sorter.h
+++ b/include/cpp-sort/fixed/sorting_network_sorter.h
@@ -78,7 +78,7 @@ namespace cppsort
     template<>
     struct fixed_sorter_traits<sorting_network_sorter>
     {
-        using domain = std::make_index_sequence<33>;
+        using domain = std::make_index_sequence<65>;
         using iterator_category = std::random_access_iterator_tag;
         using is_always_stable = std::false_type;
     };
-- 
2.43.0


From 2dd1fd91e705404ad1fd67e5e676692c8a769227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 02/45] fix: floating point swap_if never loses an element

When neither element compares less than the other (signed zeros, NaN) the
previous code duplicated the first one and lost the second.
---
 include/cpp-sort/detail/swap_if.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..7ea2e4d 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -61,7 +61,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -79,7 +79,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From fa37d7b66d4dfd7919cc65084383557e01653684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 03/45] fix: verge_adapter accepts pairs of bidirectional
 iterators

It is documented to handle bidirectional iterators but computed last - first.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..9232eaf 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto dist = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), dist,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From d129b2e12f3f8abc8a7bdd0e4ac7690ed2897263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 04/45] fix: cartesian_tree_sorter accepts projections with a
 non-const call operator

---
 include/cpp-sort/detail/cartesian_tree_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..aea33e9 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -128,7 +128,8 @@ namespace detail
         pq.push_back(tree.root());
 
         auto&& comp = cppsort::flip(compare);
-        auto proj_value = [proj=utility::as_function(projection)](auto* node) -> decltype(auto) {
+        auto proj_value = [&projection](auto* node) -> decltype(auto) {
+            auto&& proj = utility::as_function(projection);
             return proj(static_cast<node_type*>(node)->value);
         };
 
-- 
2.43.0


From 8003ca6e675c2b1bb019c2dd39ad1d7a7ef0f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 05/45] fix: spin_sorter reverses proxy iterator ranges through
 iter_swap

Swapping through a reverse_iterator of another type ended in std::iter_swap.
---
 include/cpp-sort/detail/spinsort.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
-- 
2.43.0


From e1ff4cf4dd3f8c1c9062edc707cd122bb69c9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 06/45] fix: in-place probe::dis does not narrow distances to
 int

---
 include/cpp-sort/probes/dis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/probes/dis.h b/include/cpp-sort/probes/dis.h
index ffd9a34..df1cd87 100644
--- a/include/cpp-sort/probes/dis.h
+++ b/include/cpp-sort/probes/dis.h
@@ -38,7 +38,7 @@ namespace probe
         {
             // Simple algorithm in O(n log n) time and O(1) space
 
-            auto res = 0;
+            cppsort::detail::difference_type_t<ForwardIterator> res = 0;
             auto res_it = first;
             while (size > 0) {
                 auto p = res;
-- 
2.43.0


From 4becec2c653c64234b8fe7992424ef2e80d22d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 07/45] fix: metric assignment from a metric of another type
 compiles

---
 include/cpp-sort/utility/metrics_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..8d341d2 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -91,7 +91,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, const U&>::value)
                 -> metric&
             {
-                _value = other._value;
+                _value = other.value();
                 return *this;
             }
 
@@ -100,7 +100,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, U>::value)
                 -> metric&
             {
-                _value = std::move(other._value);
+                _value = other.value();
                 return *this;
             }
 
-- 
2.43.0


From 08ece64a763e696c4b9349883c849cb0212a7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 08/45] fix: probe::osc max_for_size is an upper bound for
 every size

It was negative for one element and too small for even sizes: {1, 3, 0, 2} has
an oscillation of 4 while max_for_size(4) returned 3.
---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..5a55422 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From 3765d3dd0f6630af9b29d661827340d7bd7ab850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 09/45] fix: natural_less stays in bounds and looks past zeros

Comparing numbers of equal size ran to the end of the first sequence, past the
end of a shorter second one, and everything after numbers equal to zero was
ignored.
---
 include/cpp-sort/comparators/natural_less.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..c40a22e 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -54,12 +54,9 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From c6991d3c963fa35c24ae5743d25c2fd79fe10a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 10/45] fix: iter_move and iter_swap overloads work for
 reversed proxy iterators

The std::reverse_iterator and std::move_iterator overloads were disabled
precisely when the underlying iterator had its own iter_move or iter_swap.
---
 include/cpp-sort/utility/iter_move.h | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..a270c8d 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -23,11 +23,17 @@ namespace cppsort
         // utility namespace avoids its iter_move and iter_swap
         // overloads getting in the way
 
-        struct call_iter_move
+        struct call_own_iter_move
         {
             template<typename Iterator>
             auto operator()(Iterator it) const
                 -> decltype(iter_move(it));
+        };
+
+        struct call_iter_move:
+            call_own_iter_move
+        {
+            using call_own_iter_move::operator();
 
             template<typename Iterator>
             auto operator()(std::move_iterator<Iterator> it) const
@@ -59,6 +65,21 @@ namespace cppsort
         template<typename Iterator>
         constexpr bool has_iter_swap_v = detail::is_invocable_v<call_iter_swap, Iterator, Iterator>;
 
+        // Whether std::reverse_iterator and std::move_iterator come with
+        // dedicated functions: std::reverse_iterator over an iterator with
+        // an iter_move function otherwise needs the overloads below
+
+        template<typename Iterator>
+        constexpr bool has_own_iter_move_v = detail::is_invocable_v<call_own_iter_move, Iterator>;
+
+#ifdef __cpp_lib_ranges
+        template<typename Iterator>
+        constexpr bool has_std_iter_swap_v = std::indirectly_swappable<Iterator>;
+#else
+        template<typename Iterator>
+        constexpr bool has_std_iter_swap_v = false;
+#endif
+
         ////////////////////////////////////////////////////////////
         // Result type of a non-specialized iter_move call
 
@@ -123,7 +144,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
@@ -135,7 +156,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_std_iter_swap_v<Iterator>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -150,7 +171,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
@@ -162,7 +183,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_std_iter_swap_v<Iterator>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From 1a1be8b3885fd5f6367677965aa2fbf06cce7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 11/45] fix: container_aware_adapter can be called with a pair
 of iterators

It is documented to use the adapted sorter in such a case, but only iterables
were accepted.
---
 .../adapters/container_aware_adapter.h        | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index d53b5a4..874d65d 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -330,6 +330,57 @@ namespace cppsort
             {
                 return this->get()(iterable, std::move(compare), std::move(projection));
             }
+
+            ////////////////////////////////////////////////////////////
+            // Pairs of iterators: use the adapted sorter
+
+            template<
+                bool Stability = false,
+                typename Iterator
+            >
+            auto operator()(Iterator first, Iterator last) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator)>,
+                    decltype(this->get()(std::move(first), std::move(last)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Function
+            >
+            auto operator()(Iterator first, Iterator last, Function function) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Function)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(function)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(function));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Compare,
+                typename Projection
+            >
+            auto operator()(Iterator first, Iterator last,
+                            Compare compare, Projection projection) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+                    decltype(this->get()(std::move(first), std::move(last),
+                                         std::move(compare), std::move(projection)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last),
+                                   std::move(compare), std::move(projection));
+            }
         };
     }
 
-- 
2.43.0


From 1ef5227a6b1807fe851214552c3152ce25a609bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 12/45] fix: make_stable and schwartz_adapter move proxied
 elements with iter_move

---
 include/cpp-sort/detail/associate_iterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..0b1512b 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -67,7 +67,8 @@ namespace detail
         auto operator=(association&& other) noexcept
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
@@ -346,8 +347,9 @@ namespace detail
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From e67c28ca55a9206fa52cb24769c8cdb459613b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 13/45] fix: projection_compare accepts projections of
 non-const references everywhere

Computing whether the comparison is branchless was a hard error for them.
---
 include/cpp-sort/comparators/projection_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/comparators/projection_compare.h b/include/cpp-sort/comparators/projection_compare.h
index c7eead4..29098bb 100644
--- a/include/cpp-sort/comparators/projection_compare.h
+++ b/include/cpp-sort/comparators/projection_compare.h
@@ -195,7 +195,7 @@ namespace cppsort
                 is_probably_branchless_projection<Projection, T>,
                 is_probably_branchless_comparison<
                     Compare,
-                    cppsort::detail::invoke_result_t<Projection, T>
+                    cppsort::detail::invoke_result_t<Projection, T&>
                 >
             >
         {};
-- 
2.43.0


From fd29f4d7d874465d443dc4b06b3123ddca6dc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 14/45] fix: probe::max accepts iterators whatever their
 difference type

It did not compile when the difference type was not std::ptrdiff_t.
---
 include/cpp-sort/probes/max.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/max.h b/include/cpp-sort/probes/max.h
index dba3605..4ca1dda 100644
--- a/include/cpp-sort/probes/max.h
+++ b/include/cpp-sort/probes/max.h
@@ -70,14 +70,14 @@ namespace probe
                     iterators.begin(), iterators.end(), proj(*it),
                     compare, utility::indirect{} | projection
                 );
-                auto pos_min = rng.first - iterators.begin();
-                auto pos_max = rng.second - iterators.begin();
+                difference_type pos_min = rng.first - iterators.begin();
+                difference_type pos_max = rng.second - iterators.begin();
 
                 // If *first isn't into one of its sorted positions, computed the closest
                 if (it_pos < pos_min) {
-                    max_dist = (std::max)(pos_min - it_pos, max_dist);
+                    max_dist = (std::max<difference_type>)(pos_min - it_pos, max_dist);
                 } else if (it_pos >= pos_max) {
-                    max_dist = (std::max)(it_pos - pos_max + 1, max_dist);
+                    max_dist = (std::max<difference_type>)(it_pos - pos_max + 1, max_dist);
                 }
 
                 ++it_pos;
-- 
2.43.0


From 844a4d7268171527b14f14f7d2c4dde214b91893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 15/45] fix: sorter_facade range overloads with projections are
 not ambiguous

A sorter implementation with a comparison overload for iterators and a
projection overload for iterables made the call with an iterable and a
projection ambiguous
---
 include/cpp-sort/sorter_facade.h | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index f18c2b2..a82f22a 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -1044,6 +1044,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1074,6 +1085,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1114,6 +1136,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1141,6 +1169,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-- 
2.43.0


From 7ab541711d8f9e997ba3a389782c8c7318d2237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 16/45] fix: self_sort_adapter can sort standard lists with a
 projection

The sort method of std::list and std::forward_list is unconstrained, so it
was selected and failed to compile when passed a projection function
---
 include/cpp-sort/adapters/self_sort_adapter.h | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..fb9aeff 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -23,6 +23,24 @@ namespace cppsort
 {
     namespace detail
     {
+        // The sort method of standard library lists accepts any type
+        // of function, but only works with comparison functions
+
+        template<typename Iterable, typename... Args>
+        struct is_list_projection:
+            std::false_type
+        {};
+
+        template<typename T, typename Function>
+        struct is_list_projection<std::forward_list<T>, Function>:
+            is_projection<Function, std::forward_list<T>&>
+        {};
+
+        template<typename T, typename Function>
+        struct is_list_projection<std::list<T>, Function>:
+            is_projection<Function, std::list<T>&>
+        {};
+
         ////////////////////////////////////////////////////////////
         // Whether a class has a member sort method
 
@@ -38,7 +56,8 @@ namespace cppsort
             typename... Args
         >
         constexpr bool has_sort_method
-            = is_detected_v<has_sort_method_t, Iterable, Args...>;
+            = is_detected_v<has_sort_method_t, Iterable, Args...> &&
+              not is_list_projection<remove_cvref_t<Iterable>, Args...>::value;
 
         template<
             typename Iterable,
-- 
2.43.0


From f45c302bc8cc7bf82b4c47c42e10be9b93dde85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 17/45] fix: nested hybrid_adapter can be constructed from its
 sorters

---
 include/cpp-sort/adapters/hybrid_adapter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..4ce73e6 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -364,14 +364,14 @@ namespace cppsort
             template<typename... Args, std::size_t... Indices>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value,
                                                         std::index_sequence<Indices...>)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::tuple<Args...>(std::move(value.template get<Indices>())...);
             }
 
             template<typename... Args>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
                 return get_sorters_from_impl(std::move(value), std::make_index_sequence<sizeof...(Args)>{});
             }
-- 
2.43.0


From 4444b578ceb6ccf95401e3f13a595265c5c0a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 18/45] fix: out_of_place_adapter is SFINAE-friendly

---
 include/cpp-sort/adapters/out_of_place_adapter.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..18a49b7 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -32,7 +32,15 @@ namespace cppsort
         template<typename Sorter, typename ForwardIterator, typename Size, typename... Args>
         auto sort_out_of_place(ForwardIterator first, ForwardIterator last,
                                Size size, const Sorter& sorter, Args&&... args)
-            -> decltype(auto)
+#ifdef __cpp_lib_uncaught_exceptions
+            -> decltype(sorter(std::declval<rvalue_type_t<ForwardIterator>*>(),
+                               std::declval<rvalue_type_t<ForwardIterator>*>(),
+                               std::forward<Args>(args)...))
+#else
+            -> void_t<decltype(sorter(std::declval<rvalue_type_t<ForwardIterator>*>(),
+                                      std::declval<rvalue_type_t<ForwardIterator>*>(),
+                                      std::forward<Args>(args)...))>
+#endif
         {
             using rvalue_type = rvalue_type_t<ForwardIterator>;
 
@@ -81,7 +89,8 @@ namespace cppsort
 
         template<typename Iterator, typename... Args>
         auto operator()(Iterator first, Iterator last, Args&&... args) const
-            -> decltype(auto)
+            -> decltype(detail::sort_out_of_place(first, last, std::distance(first, last),
+                                                  this->get(), std::forward<Args>(args)...))
         {
             auto size = std::distance(first, last);
             return detail::sort_out_of_place(first, last, size, this->get(), std::forward<Args>(args)...);
@@ -89,7 +98,8 @@ namespace cppsort
 
         template<typename Iterable, typename... Args>
         auto operator()(Iterable&& iterable, Args&&... args) const
-            -> decltype(auto)
+            -> decltype(detail::sort_out_of_place(std::begin(iterable), std::end(iterable), utility::size(iterable),
+                                                  this->get(), std::forward<Args>(args)...))
         {
             // Might be an optimization for forward/bidirectional iterables
             auto size = utility::size(iterable);
-- 
2.43.0


From f40fdaf23e4521929d88e0c5d78cb362ca69a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 19/45] fix: projections of temporary proxies are not kept by
 reference

---
 .../cpp-sort/detail/adaptive_quickselect.h    |  9 ++--
 include/cpp-sort/detail/cartesian_tree_sort.h |  3 +-
 .../detail/front_inserter/inserter10.h        |  4 +-
 .../detail/front_inserter/inserter11.h        |  4 +-
 .../detail/front_inserter/inserter3.h         |  4 +-
 .../detail/front_inserter/inserter4.h         |  4 +-
 .../detail/front_inserter/inserter5.h         |  4 +-
 .../detail/front_inserter/inserter6.h         |  4 +-
 .../detail/front_inserter/inserter7.h         |  4 +-
 .../detail/front_inserter/inserter8.h         |  4 +-
 .../detail/front_inserter/inserter9.h         |  4 +-
 include/cpp-sort/detail/grail_sort.h          |  3 +-
 include/cpp-sort/detail/introselect.h         |  6 ++-
 include/cpp-sort/detail/melsort.h             |  4 +-
 include/cpp-sort/detail/merge_sort.h          |  6 ++-
 include/cpp-sort/detail/quick_merge_sort.h    |  3 +-
 include/cpp-sort/detail/quicksort.h           |  6 ++-
 include/cpp-sort/detail/slabsort.h            | 17 ++++---
 include/cpp-sort/detail/splaysort.h           |  3 +-
 include/cpp-sort/detail/vergesort.h           |  6 ++-
 include/cpp-sort/probes/enc.h                 |  3 +-
 include/cpp-sort/probes/osc.h                 |  3 +-
 include/cpp-sort/utility/functional.h         | 44 +++++++++++++++++--
 23 files changed, 115 insertions(+), 37 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..47ca0f6 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_proj_ref = *r;
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_proj_ref)>(pivot_proj_ref));
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_proj_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(std::forward<decltype(old_pivot_proj_ref)>(old_pivot_proj_ref));
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_proj_ref = r[0];
+            auto&& pivot_proj = proj(std::forward<decltype(pivot_proj_ref)>(pivot_proj_ref));
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index aea33e9..6a8b59e 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& proj_value_ref = *first;
+                    auto&& proj_value = proj(std::forward<decltype(proj_value_ref)>(proj_value_ref));
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..2d2fb50 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..ef76b0c 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..edfcb54 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..5c58119 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..37a900f 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..ea0efc9 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..e4b85de 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..eb75056 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..7cf76a3 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <utility>
 #include <cpp-sort/utility/as_function.h>
 #include "../rotate_left.h"
 
@@ -28,7 +29,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& proj0_ref = first[0u];
+            auto&& proj0 = proj(std::forward<decltype(proj0_ref)>(proj0_ref));
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..558e759 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_proj_ref = *midkey;
+        auto&& midkey_proj = proj(std::forward<decltype(midkey_proj_ref)>(midkey_proj_ref));
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..6beece8 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..7fba49d 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -11,6 +11,7 @@
 #include <cmath>
 #include <iterator>
 #include <vector>
+#include <utility>
 #include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/iter_move.h>
@@ -147,7 +148,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..d7fd3c8 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_proj_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_proj_ref)>(middle_proj_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_proj_ref = *middle;
+        auto&& middle_proj = proj(std::forward<decltype(middle_proj_ref)>(middle_proj_ref));
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..1ac7827 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& mid_value_ref = *middle;
+        auto&& mid_value = proj(std::forward<decltype(mid_value_ref)>(mid_value_ref));
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..b0fdd4f 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(std::forward<decltype(pivot1_ref)>(pivot1_ref));
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(std::forward<decltype(pivot2_ref)>(pivot2_ref));
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..2ece9f0 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -112,7 +112,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(std::forward<decltype(pivot_ref)>(pivot_ref));
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -141,6 +142,9 @@ namespace detail
             return true;
         }
 
+        // Projection applied through the stored iterators
+        auto deref_proj = utility::indirect{} | projection;
+
         // Encroaching lists
         std::vector<fixed_size_list<node_type>> lists;
         lists.emplace_back(node_pool, destroy_node_contents<BidirectionalIterator, node_type, &node_type::it>);
@@ -152,15 +156,16 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*std::prev(list.end()).base()->it);
+                    [&deref_proj](auto& list) -> decltype(auto) {
+                        return deref_proj(std::prev(list.end()).base()->it);
                     }
                 );
                 insertion_point->push_back([&it](node_type* node) {
@@ -170,8 +175,8 @@ namespace detail
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*list.begin().base()->it);
+                    [&deref_proj](auto& list) -> decltype(auto) {
+                        return deref_proj(list.begin().base()->it);
                     }
                 );
                 insertion_point->push_front([&it](node_type* node) {
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..8a7ec99 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& value_proj_ref = *it;
+                auto&& value_proj = proj(std::forward<decltype(value_proj_ref)>(value_proj_ref));
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..606c3c1 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& target_ref = *begin;
+                    auto&& target = proj(std::forward<decltype(target_ref)>(target_ref));
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(first, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& target_ref = *std::prev(next_it->end);
+                    auto&& target = proj(std::forward<decltype(target_ref)>(target_ref));
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..a599929 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,8 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index 771b801..cdde6c3 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,8 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value = proj(std::forward<decltype(value_ref)>(value_ref));
 
                 auto current = first;
                 auto next = std::next(first);
diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index cc50947..bb44046 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -34,6 +34,28 @@ namespace utility
 
     namespace detail
     {
+        // When lhs returns a temporary and rhs returns a reference into
+        // that temporary (it is what identity does), a value has to be
+        // returned instead: the temporary dies when the function returns
+
+        template<
+            typename Lhs,
+            typename Result,
+            bool = not std::is_reference<Lhs>::value && std::is_rvalue_reference<Result>::value
+        >
+        struct pipe_result
+        {
+            using type = Result;
+            static constexpr bool is_nothrow = true;
+        };
+
+        template<typename Lhs, typename Result>
+        struct pipe_result<Lhs, Result, true>
+        {
+            using type = cppsort::detail::remove_cvref_t<Result>;
+            static constexpr bool is_nothrow = std::is_nothrow_constructible<type, Result>::value;
+        };
+
         template<typename T, typename U>
         struct projection_base_pipe_result:
             projection_base,
@@ -49,16 +71,30 @@ namespace utility
 
             template<typename Arg>
             constexpr auto operator()(Arg&& value)
-                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))))
-                -> decltype(rhs(lhs(std::forward<Arg>(value))))
+                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))) &&
+                         pipe_result<
+                             decltype(lhs(std::forward<Arg>(value))),
+                             decltype(rhs(lhs(std::forward<Arg>(value))))
+                         >::is_nothrow)
+                -> typename pipe_result<
+                    decltype(lhs(std::forward<Arg>(value))),
+                    decltype(rhs(lhs(std::forward<Arg>(value))))
+                >::type
             {
                 return rhs(lhs(std::forward<Arg>(value)));
             }
 
             template<typename Arg>
             constexpr auto operator()(Arg&& value) const
-                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))))
-                -> decltype(rhs(lhs(std::forward<Arg>(value))))
+                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))) &&
+                         pipe_result<
+                             decltype(lhs(std::forward<Arg>(value))),
+                             decltype(rhs(lhs(std::forward<Arg>(value))))
+                         >::is_nothrow)
+                -> typename pipe_result<
+                    decltype(lhs(std::forward<Arg>(value))),
+                    decltype(rhs(lhs(std::forward<Arg>(value))))
+                >::type
             {
                 return rhs(lhs(std::forward<Arg>(value)));
             }
-- 
2.43.0


From 9ae3346e48e88b7b4500c884acfd8dd4f81eee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 20/45] fix: stable_adapter of nested hybrid_adapter unwraps it

---
 .../detail/stable_adapter_hybrid_adapter.h    | 55 ++++++++++++++++---
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
index fa8c003..5e02dcb 100644
--- a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
@@ -14,18 +14,57 @@
 
 namespace cppsort
 {
+    namespace detail
+    {
+        // hybrid_adapter unwraps nested hybrid_adapter, the sorters to
+        // make stable are the unwrapped ones
+
+        template<typename Unwrapped>
+        struct stable_hybrid_adapter_impl;
+
+        template<typename... Sorters>
+        struct stable_hybrid_adapter_impl<hybrid_adapter_impl<Sorters...>>:
+            hybrid_adapter<stable_t<Sorters>...>
+        {
+            private:
+
+                template<std::size_t... Indices>
+                constexpr explicit stable_hybrid_adapter_impl(std::index_sequence<Indices...>,
+                                                              hybrid_adapter_impl<Sorters...>&& sorters):
+                    hybrid_adapter<stable_t<Sorters>...>(
+                        (stable_t<Sorters>(std::move(sorters).template get<Indices>()))...
+                    )
+                {}
+
+            public:
+
+                stable_hybrid_adapter_impl() = default;
+
+                constexpr explicit stable_hybrid_adapter_impl(hybrid_adapter_impl<Sorters...>&& sorters):
+                    stable_hybrid_adapter_impl(std::make_index_sequence<sizeof...(Sorters)>{}, std::move(sorters))
+                {}
+        };
+    }
+
     template<typename... Sorters>
     struct stable_adapter<hybrid_adapter<Sorters...>>:
-        hybrid_adapter<stable_t<Sorters>...>
+        detail::stable_hybrid_adapter_impl<
+            typename detail::flatten_fold<
+                hybrid_adapter,
+                hybrid_adapter<Sorters...>,
+                detail::hybrid_adapter_impl<>
+            >::type
+        >
     {
         private:
 
-            template<std::size_t... Indices>
-            constexpr explicit stable_adapter(std::index_sequence<Indices...>, hybrid_adapter<Sorters...>&& sorters):
-                hybrid_adapter<stable_t<Sorters>...>(
-                    (stable_t<Sorters>(std::move(sorters).template get<Indices>()))...
-                )
-            {}
+            using base_class = detail::stable_hybrid_adapter_impl<
+                typename detail::flatten_fold<
+                    cppsort::hybrid_adapter,
+                    hybrid_adapter<Sorters...>,
+                    detail::hybrid_adapter_impl<>
+                >::type
+            >;
 
         public:
 
@@ -35,7 +74,7 @@ namespace cppsort
             stable_adapter() = default;
 
             constexpr explicit stable_adapter(hybrid_adapter<Sorters...> sorters):
-                stable_adapter(std::make_index_sequence<sizeof...(Sorters)>{}, std::move(sorters))
+                base_class(std::move(sorters))
             {}
 
             ////////////////////////////////////////////////////////////
-- 
2.43.0


From 7900823b8b5133375963576bf820a883e539e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 21/45] fix: comparators which throw when copied don't
 terminate grail_sorter

---
 include/cpp-sort/detail/three_way_compare.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/three_way_compare.h b/include/cpp-sort/detail/three_way_compare.h
index 86910fb..1098d0c 100644
--- a/include/cpp-sort/detail/three_way_compare.h
+++ b/include/cpp-sort/detail/three_way_compare.h
@@ -87,7 +87,7 @@ namespace detail
                 compare(std::move(compare))
             {}
 
-            constexpr auto base() const noexcept
+            constexpr auto base() const
                 -> Compare
             {
                 return compare;
@@ -106,7 +106,7 @@ namespace detail
 
         using three_way_compare_base<three_way_compare<Compare>>::operator();
 
-        constexpr auto base() const noexcept
+        constexpr auto base() const
             -> Compare
         {
             // If the comparator is empty, we don't need to store it
-- 
2.43.0


From 118aa557f8bb21e80a9ad26aa4dae82843895894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 22/45] fix: iterators which throw when copied don't terminate
 indirect sorting

---
 include/cpp-sort/detail/indiesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/indiesort.h b/include/cpp-sort/detail/indiesort.h
index 3c67b1b..7416dc3 100644
--- a/include/cpp-sort/detail/indiesort.h
+++ b/include/cpp-sort/detail/indiesort.h
@@ -48,7 +48,7 @@ namespace detail
 
         it_and_index() = default;
 
-        it_and_index(Iterator item, difference_type_t<Iterator> index) noexcept:
+        it_and_index(Iterator item, difference_type_t<Iterator> index):
             original_location(item),
             original_index(index)
         {}
-- 
2.43.0


From f4aabedd51dbd7b0d090f0cb02a31a4fc06730a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 23/45] fix: string_spread_sorter accepts mutable projections

---
 .../cpp-sort/detail/spreadsort/detail/string_sort.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/string_sort.h b/include/cpp-sort/detail/spreadsort/detail/string_sort.h
index 2b4869b..ae79d99 100644
--- a/include/cpp-sort/detail/spreadsort/detail/string_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/string_sort.h
@@ -29,6 +29,7 @@ Phil Endecott and Frank Gennari
 #include <memory>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 #include <vector>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
@@ -100,12 +101,12 @@ namespace spreadsort
         {}
 
         template<typename T, typename U>
-        auto operator()(const T& x, const U& y) const
+        auto operator()(T&& x, U&& y)
             -> bool
         {
             auto&& proj = utility::as_function(std::get<1>(data));
-            auto&& proj_x = proj(x);
-            auto&& proj_y = proj(y);
+            auto&& proj_x = proj(std::forward<T>(x));
+            auto&& proj_y = proj(std::forward<U>(y));
 
             std::size_t minSize = (std::min)(proj_x.size(), proj_y.size());
             for (std::size_t u = std::get<0>(data); u < minSize; ++u) {
@@ -131,12 +132,12 @@ namespace spreadsort
         {}
 
         template<typename T, typename U>
-        auto operator()(const T& x, const U& y) const
+        auto operator()(T&& x, U&& y)
             -> bool
         {
             auto&& proj = utility::as_function(std::get<1>(data));
-            auto&& proj_x = proj(x);
-            auto&& proj_y = proj(y);
+            auto&& proj_x = proj(std::forward<T>(x));
+            auto&& proj_y = proj(std::forward<U>(y));
 
             std::size_t minSize = (std::min)(proj_x.size(), proj_y.size());
             for (std::size_t u = std::get<0>(data); u < minSize; ++u) {
-- 
2.43.0


From cb4a4071d5bd341607ef9ebb149ede878584eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 24/45] fix: container_aware_adapter<merge_sorter> sorted lists
 unstably

The right half of the list was kept in the sorted list and the left half merged
into it, so equivalent elements of the right half ended up first, though the
algorithm is documented to be stable.
---
 .../detail/container_aware/merge_sort.h       | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..9829c39 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -33,17 +33,17 @@ namespace cppsort
         {
             if (collection.size() < 2) return;
 
-            // Extract left part
-            auto first = collection.begin();
-            auto middle = std::next(first, collection.size() / 2);
-            std::list<Args...> left(collection.get_allocator());
-            left.splice(left.begin(), collection, first, middle);
-
-            // Recursively sort, then merge
-            list_merge_sort(left, compare, projection);
+            // Extract right part
+            auto middle = std::next(collection.begin(), collection.size() / 2);
+            std::list<Args...> right(collection.get_allocator());
+            right.splice(right.begin(), collection, middle, collection.end());
+
+            // Recursively sort, then merge: equivalent elements of the left
+            // part have to be placed first for the algorithm to be stable
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            list_merge_sort(right, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -54,17 +54,17 @@ namespace cppsort
         {
             if (size < 2) return;
 
-            // Extract left part
-            auto first = collection.before_begin();
-            auto middle = std::next(first, size / 2 + 1);
-            std::forward_list<Args...> left(collection.get_allocator());
-            left.splice_after(left.before_begin(), collection, first, middle);
-
-            // Recursively sort, then merge
-            flist_merge_sort(left, size / 2, compare, projection);
-            flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            // Extract right part
+            auto before_middle = std::next(collection.before_begin(), size / 2);
+            std::forward_list<Args...> right(collection.get_allocator());
+            right.splice_after(right.before_begin(), collection, before_middle, collection.end());
+
+            // Recursively sort, then merge: equivalent elements of the left
+            // part have to be placed first for the algorithm to be stable
+            flist_merge_sort(collection, size / 2, compare, projection);
+            flist_merge_sort(right, size - size / 2, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
     }
 
-- 
2.43.0


From 4b94560c0d7dca52416b6bf331394ef7490f82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 25/45] fix: is_stable of adapters which do not sort the
 original elements

indirect_adapter, out_of_place_adapter, schwartz_adapter, sorted_indices and
sorted_iterators reported the stability the adapted sorter has when called with
their own parameters, while they call it with other iterators: for example a
hybrid_adapter stable for forward iterators only made the result look stable,
and stable_adapter leave it unstable.
---
 include/cpp-sort/adapters/indirect_adapter.h  |  4 +-
 .../cpp-sort/adapters/out_of_place_adapter.h  |  4 +-
 include/cpp-sort/adapters/schwartz_adapter.h  | 76 ++++++++++++++++++-
 include/cpp-sort/utility/sorted_indices.h     |  4 +-
 include/cpp-sort/utility/sorted_iterators.h   |  4 +-
 5 files changed, 87 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/adapters/indirect_adapter.h b/include/cpp-sort/adapters/indirect_adapter.h
index a08fd0e..752fd69 100644
--- a/include/cpp-sort/adapters/indirect_adapter.h
+++ b/include/cpp-sort/adapters/indirect_adapter.h
@@ -216,7 +216,9 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<indirect_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter sorts iterators, the stability it
+        // would have with the original parameters is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index 18a49b7..4229ca9 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -118,7 +118,9 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<out_of_place_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter sorts elements in a buffer, the stability it
+        // would have with the original parameters is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
diff --git a/include/cpp-sort/adapters/schwartz_adapter.h b/include/cpp-sort/adapters/schwartz_adapter.h
index a0685ba..57fc8e1 100644
--- a/include/cpp-sort/adapters/schwartz_adapter.h
+++ b/include/cpp-sort/adapters/schwartz_adapter.h
@@ -240,9 +240,83 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        // Whether a call with the given parameters has a projection
+        // which isn't bypassed
+
+        template<typename... Args>
+        struct has_schwartz_projection:
+            std::false_type
+        {};
+
+        template<typename Iterable, typename Function>
+        struct has_schwartz_projection<Iterable, Function>:
+            is_projection<Function, Iterable>
+        {};
+
+        template<typename Iterable, typename Compare, typename Projection>
+        struct has_schwartz_projection<Iterable, Compare, Projection>:
+            std::true_type
+        {};
+
+        template<typename Iterable, typename Compare>
+        struct has_schwartz_projection<Iterable, Compare, utility::identity>:
+            std::false_type
+        {};
+
+        template<typename Iterator, typename Function>
+        struct has_schwartz_projection<Iterator, Iterator, Function>:
+            is_projection_iterator<Function, Iterator>
+        {};
+
+        template<typename Iterator>
+        struct has_schwartz_projection<Iterator, Iterator, utility::identity>:
+            std::false_type
+        {};
+
+        template<typename Iterator, typename Compare, typename Projection>
+        struct has_schwartz_projection<Iterator, Iterator, Compare, Projection>:
+            std::true_type
+        {};
+
+        template<typename Iterator, typename Compare>
+        struct has_schwartz_projection<Iterator, Iterator, Compare, utility::identity>:
+            std::false_type
+        {};
+
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+        template<typename Iterable, typename Compare>
+        struct has_schwartz_projection<Iterable, Compare, std::identity>:
+            std::false_type
+        {};
+
+        template<typename Iterator>
+        struct has_schwartz_projection<Iterator, Iterator, std::identity>:
+            std::false_type
+        {};
+
+        template<typename Iterator, typename Compare>
+        struct has_schwartz_projection<Iterator, Iterator, Compare, std::identity>:
+            std::false_type
+        {};
+#endif
+
+        template<typename Sorter>
+        struct is_schwartz_stable:
+            sorter_traits<Sorter>::is_always_stable
+        {};
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<schwartz_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::conditional_t<
+            detail::has_schwartz_projection<detail::remove_cvref_t<Args>...>::value,
+            // The adapted sorter sorts associate iterators, the stability it
+            // would have with the original parameters is irrelevant
+            detail::is_schwartz_stable<Sorter>,
+            is_stable<Sorter(Args...)>
+        >
     {};
 }
 
diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..cf7bf61 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -103,7 +103,9 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<cppsort::utility::sorted_indices<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter sorts indices, the stability it
+        // would have with the original parameters is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
diff --git a/include/cpp-sort/utility/sorted_iterators.h b/include/cpp-sort/utility/sorted_iterators.h
index abed120..2cb4c6f 100644
--- a/include/cpp-sort/utility/sorted_iterators.h
+++ b/include/cpp-sort/utility/sorted_iterators.h
@@ -136,7 +136,9 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<cppsort::utility::sorted_iterators<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter sorts iterators, the stability it
+        // would have with the original parameters is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
-- 
2.43.0


From f1c65abaf5cc2f73ee206141bb8a14908797bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 26/45] fix: container_aware_adapter had no sorter traits

It therefore could not be used with stable_adapter, stable_t or hybrid_adapter,
and is_stable did not compile for the sorters with dedicated algorithms.
---
 include/cpp-sort/adapters/container_aware_adapter.h | 10 +++++++++-
 .../detail/container_aware/insertion_sort.h         |  9 +++++++++
 .../detail/container_aware/selection_sort.h         | 13 +++++++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index 874d65d..ab4d626 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -15,6 +15,7 @@
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/adapter_storage.h>
+#include "../detail/checkers.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -90,7 +91,8 @@ namespace cppsort
 
         template<typename Sorter>
         struct container_aware_adapter_base:
-            utility::adapter_storage<Sorter>
+            utility::adapter_storage<Sorter>,
+            check_iterator_category<Sorter>
         {
             container_aware_adapter_base() = default;
 
@@ -381,6 +383,12 @@ namespace cppsort
                 return this->get()(std::move(first), std::move(last),
                                    std::move(compare), std::move(projection));
             }
+
+            ////////////////////////////////////////////////////////////
+            // Sorter traits
+
+            // The stability of dedicated algorithms can't be guaranteed
+            using is_always_stable = std::false_type;
         };
     }
 
diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..e37b46f 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -215,6 +215,15 @@ namespace cppsort
             );
         }
     };
+
+    ////////////////////////////////////////////////////////////
+    // is_stable specialization
+
+    template<typename... Args>
+    struct is_stable<container_aware_adapter<insertion_sorter>(Args...)>:
+        decltype(detail::container_aware_adapter_base<insertion_sorter>{}
+                    .template operator()<true>(std::declval<Args&>()...))
+    {};
 }
 
 #endif // CPPSORT_DETAIL_CONTAINER_AWARE_INSERTION_SORT_H_
diff --git a/include/cpp-sort/detail/container_aware/selection_sort.h b/include/cpp-sort/detail/container_aware/selection_sort.h
index 6bc6972..a12b1f9 100644
--- a/include/cpp-sort/detail/container_aware/selection_sort.h
+++ b/include/cpp-sort/detail/container_aware/selection_sort.h
@@ -175,6 +175,19 @@ namespace cppsort
             detail::flist_selection_sort(iterable, std::move(compare), std::move(projection));
         }
     };
+
+    ////////////////////////////////////////////////////////////
+    // is_stable specializations
+
+    template<typename T, typename Allocator, typename... Args>
+    struct is_stable<container_aware_adapter<selection_sorter>(std::list<T, Allocator>&, Args...)>:
+        std::true_type
+    {};
+
+    template<typename T, typename Allocator, typename... Args>
+    struct is_stable<container_aware_adapter<selection_sorter>(std::forward_list<T, Allocator>&, Args...)>:
+        std::true_type
+    {};
 }
 
 #endif // CPPSORT_DETAIL_CONTAINER_AWARE_SELECTION_SORT_H_
-- 
2.43.0


From b3c9a8f00364b1d059e6ba06dea67c877b0d9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 27/45] fix: sorted_indices accepts projections returning
 values and proxy references

---
 include/cpp-sort/utility/sorted_indices.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index cf7bf61..cdd1116 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,12 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
+                            [&first, &proj](difference_type index)
+                                -> typename pipe_result<
+                                    decltype(first[index]),
+                                    decltype(proj(first[index]))
+                                >::type
+                            {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From 5a63640856a8be766345f5906db0ba316479b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 28/45] fix: is_stable of metrics::moves and
 metrics::projections

They never call the adapted sorter with the original range, they can't take the
stability it has for that range.
---
 include/cpp-sort/metrics/moves.h       | 4 +++-
 include/cpp-sort/metrics/projections.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/metrics/moves.h b/include/cpp-sort/metrics/moves.h
index 8c47501..16a30f3 100644
--- a/include/cpp-sort/metrics/moves.h
+++ b/include/cpp-sort/metrics/moves.h
@@ -196,7 +196,9 @@ namespace cppsort
 
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::moves<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter isn't called with the original parameters,
+        // the stability it would have with them is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
diff --git a/include/cpp-sort/metrics/projections.h b/include/cpp-sort/metrics/projections.h
index df6b010..a461afc 100644
--- a/include/cpp-sort/metrics/projections.h
+++ b/include/cpp-sort/metrics/projections.h
@@ -146,7 +146,9 @@ namespace cppsort
 
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::projections<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        // The adapted sorter isn't called with the original parameters,
+        // the stability it would have with them is irrelevant
+        sorter_traits<Sorter>::is_always_stable
     {};
 }
 
-- 
2.43.0


From aa93702fff8d31f7b084ecb32a3823c856b8eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 29/45] fix: spin_sorter read past the end and misplaced
 elements of odd-sized halves

merge_half ran half_inplace_merge for as many steps as the first half has
elements, though the second half can have one less
---
 include/cpp-sort/detail/boost_common/util/merge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..43d3afc 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -20,6 +20,7 @@
 #define CPPSORT_DETAIL_BOOST_COMMON_UTIL_MERGE_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <functional>
 #include <iterator>
 #include <memory>
@@ -131,7 +132,8 @@ namespace util
         }
 
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            std::min(std::size_t(end_buf1 - buf1), std::size_t(end_buf2 - buf2)),
+                                            compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From cada3698bddaa929a9115912fa957a772e6f8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 30/45] fix: spin_sorter is documented to be stable and is

---
 include/cpp-sort/sorters/spin_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/sorters/spin_sorter.h b/include/cpp-sort/sorters/spin_sorter.h
index 0f4232c..e3b2364 100644
--- a/include/cpp-sort/sorters/spin_sorter.h
+++ b/include/cpp-sort/sorters/spin_sorter.h
@@ -57,7 +57,7 @@ namespace cppsort
             // Sorter traits
 
             using iterator_category = std::random_access_iterator_tag;
-            using is_always_stable = std::false_type;
+            using is_always_stable = std::true_type;
         };
     }
 
-- 
2.43.0


From 2def7f0b75e240a35a97d6df7cac24fc3a48e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 31/45] fix: verge_sorter misplaced runs of one element

Merging a run of a single element which is not the first of the list
rotated everything from the beginning of the collection
---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 606c3c1..007fd6e 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -68,7 +68,7 @@ namespace verge
                     auto&& target = proj(std::forward<decltype(target_ref)>(target_ref));
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From df2dba96e02dd6419afa54c744862b7af20756a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 32/45] fix: grail_sorter and vergesort narrowed sizes to int

Collections of more than INT_MAX elements with fewer than four distinct
values were left unsorted by grail_sorter
---
 include/cpp-sort/detail/grail_sort.h | 4 ++--
 include/cpp-sort/detail/vergesort.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 558e759..9edd58f 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -663,7 +663,7 @@ namespace grail
                     p0 += 2 * h;
                 }
             }
-            int rest = last - p0;
+            auto rest = last - p0;
             if (rest > h) {
                 merge_without_buffer(p0, p0 + h, last, compare, projection);
             }
@@ -673,7 +673,7 @@ namespace grail
     template<typename RandomAccessIterator, typename BufferIterator,
              typename Compare, typename Projection>
     auto common_sort(RandomAccessIterator first, RandomAccessIterator last,
-                     BufferIterator extbuf, int LExtBuf,
+                     BufferIterator extbuf, difference_type_t<RandomAccessIterator> LExtBuf,
                      Compare compare, Projection projection)
         -> void
     {
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 007fd6e..cc34632 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -121,7 +121,7 @@ namespace verge
         auto&& proj = utility::as_function(projection);
 
         // Limit under which fallback is used
-        int minrun_limit = size / log2(size);
+        difference_type minrun_limit = size / log2(size);
 
         // Vergesort detects big runs in ascending or descending order,
         // and remembers where each run ends by storing the end iterator
-- 
2.43.0


From b1072f7941337f5bc4aacf36bbb2e9180f213cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 33/45] fix: swap_if with std::ranges::less or greater on
 numbers recursed forever

---
 include/cpp-sort/detail/swap_if.h | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index 7ea2e4d..5570cf3 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -114,59 +114,59 @@ namespace detail
 
 #ifdef __cpp_lib_ranges
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 #endif
 
-- 
2.43.0


From 14780ecb1a4ccdae882af72eed54f247fc9765a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 34/45] fix: documented move weight of low_moves_sorter<2>

---
 docs/Fixed-size-sorters.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Fixed-size-sorters.md b/docs/Fixed-size-sorters.md
index dd9ce78..d4c65f1 100644
--- a/docs/Fixed-size-sorters.md
+++ b/docs/Fixed-size-sorters.md
@@ -60,7 +60,7 @@ Size | Move weight
 ---- | -----------
 0 | 0
 1 | 0
-2 | 2
+2 | 3
 3 | 17
 4 | 122
 5 | 898
-- 
2.43.0


From a18ad0394f45f631e7566e07dcb5dff3869461fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 35/45] fix: counting_sorter computed ranges of values which
 overflow

---
 include/cpp-sort/detail/counting_sort.h | 50 +++++++++++++++++++++----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..7f7b1ea 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,16 +9,46 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iterator>
+#include <limits>
+#include <new>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
+#include "type_traits.h"
 
 namespace cppsort
 {
 namespace detail
 {
+    // Distance between two integers such as low <= high, which
+    // does not always fit into their own type
+
+    template<typename Integer>
+    auto counting_distance(Integer low, Integer high)
+        -> conditional_t<(sizeof(Integer) > sizeof(std::uintmax_t)), Integer, std::uintmax_t>
+    {
+        using distance_type = conditional_t<(sizeof(Integer) > sizeof(std::uintmax_t)), Integer, std::uintmax_t>;
+        return static_cast<distance_type>(high) - static_cast<distance_type>(low);
+    }
+
+    // Number of counters needed for all the integers in [min, max]
+
+    template<typename DifferenceType, typename Integer>
+    auto counting_range(Integer min, Integer max)
+        -> std::ptrdiff_t
+    {
+        auto distance = counting_distance(min, max);
+        constexpr auto max_size = (std::numeric_limits<std::ptrdiff_t>::max)();
+        if (distance < 0 || distance >= static_cast<decltype(distance)>(max_size) / sizeof(DifferenceType)) {
+            throw std::bad_alloc{};
+        }
+        return static_cast<std::ptrdiff_t>(distance) + 1;
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
@@ -30,19 +60,21 @@ namespace detail
 
         auto min = *info.min;
         auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        std::ptrdiff_t value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_distance<decltype(min)>(min, *it))];
         }
 
         for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+            first = std::fill_n(first, count, min);
+            if (min == max) break;
+            ++min;
         }
     }
 
@@ -57,20 +89,22 @@ namespace detail
 
         auto min = *info.max;
         auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        std::ptrdiff_t value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_distance<decltype(min)>(min, *it))];
         }
 
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
             auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+            first = std::fill_n(first, count, max);
+            if (min == max) break;
+            --max;
         }
     }
 }}
-- 
2.43.0


From 82f873fb4af867bf102fca036a6490dec471e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 36/45] fix: don't call dynamic_buffer's size policy on empty
 collections

utility::log is not defined for 0: static_cast<size_t>(-inf) is undefined
behaviour, and grail_sorter and wiki_sorter threw when they were given an
empty collection and dynamic_buffer<utility::log>.
---
 include/cpp-sort/utility/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/buffer.h b/include/cpp-sort/utility/buffer.h
index a88c73d..ca96a89 100644
--- a/include/cpp-sort/utility/buffer.h
+++ b/include/cpp-sort/utility/buffer.h
@@ -253,7 +253,8 @@ namespace utility
         {
             explicit buffer(std::size_t size):
                 detail::dynamic_buffer_impl<T>(
-                    static_cast<std::size_t>(SizePolicy{}(size))
+                    // Size policies such as logarithms are not defined for 0
+                    size == 0 ? 0 : static_cast<std::size_t>(SizePolicy{}(size))
                 )
             {}
         };
-- 
2.43.0


From 3cbf5f8323f84d70e9d03ced6aa0650abea6a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 37/45] fix: accept plain functions in as_projection,
 as_comparison and projection pipes

---
 include/cpp-sort/utility/functional.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index bb44046..cbc0772 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -112,8 +112,8 @@ namespace utility
     constexpr auto operator|(T&& lhs, U&& rhs)
         -> decltype(auto)
     {
-        using lhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<T>(lhs)))>;
-        using rhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<U>(rhs)))>;
+        using lhs_t = std::decay_t<decltype(as_function(std::forward<T>(lhs)))>;
+        using rhs_t = std::decay_t<decltype(as_function(std::forward<U>(rhs)))>;
         return detail::projection_base_pipe_result<lhs_t, rhs_t>(
             as_function(std::forward<T>(lhs)),
             as_function(std::forward<U>(rhs))
@@ -333,10 +333,10 @@ namespace utility
     constexpr auto as_projection(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_projection_fn>,
-            detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_projection_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_projection_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
@@ -353,10 +353,10 @@ namespace utility
     constexpr auto as_comparison(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_comparison_fn>,
-            detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_comparison_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_comparison_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
-- 
2.43.0


From 4a3a4f0ceb642bbe9d7ca0d014fbee8688eee1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 38/45] fix: utility::metrics could not be copied from a
 non-const lvalue

---
 include/cpp-sort/utility/metrics_tools.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 8d341d2..2b92839 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -258,7 +258,12 @@ namespace utility
             metrics(const metrics&) = default;
             metrics(metrics&&) = default;
 
-            template<typename... Args>
+            template<
+                typename... Args,
+                typename = cppsort::detail::enable_if_t<
+                    std::is_constructible<std::tuple<metric<TT, Tags>...>, Args...>::value
+                >
+            >
             constexpr explicit metrics(Args&&... args):
                 metrics_(std::forward<Args>(args)...)
             {}
-- 
2.43.0


From 0bd8b44df4dc59e47e0c1209f5d4311ac5955402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 39/45] fix: weak_less and weak_greater didn't accept
 floating-point values

---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0011035 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
-            -> decltype(cppsort::weak_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_greater(lhs, rhs))
+            >
         {
             return cppsort::weak_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..aa658aa 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
-            -> decltype(cppsort::weak_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_less(lhs, rhs))
+            >
         {
             return cppsort::weak_less(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..3f96de3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
-            -> decltype(cppsort::total_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_greater(lhs, rhs))
+            >
         {
             return cppsort::total_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..6254146 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
-            -> decltype(cppsort::total_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_less(lhs, rhs))
+            >
         {
             return cppsort::total_less(lhs, rhs);
         }
-- 
2.43.0


From 5d479d1260717bc88bcce3bc47010f7dad39016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 40/45] fix: schwartz_adapter terminated when an assignment
 made by the adapted sorter threw

The move assignment of association was noexcept even though it moves an element through user-provided iterators
---
 include/cpp-sort/detail/associate_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 0b1512b..93aa93e 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -64,7 +64,7 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
             -> association&
         {
             using utility::iter_move;
-- 
2.43.0


From 8a3cbb3bece26f6b7cab5e26cfdbcc8b644816bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 41/45] fix: stable_sort could not be given a sorter and a pair
 of iterators without being const

---
 include/cpp-sort/stable_sort.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/stable_sort.h b/include/cpp-sort/stable_sort.h
index 0265046..468abad 100644
--- a/include/cpp-sort/stable_sort.h
+++ b/include/cpp-sort/stable_sort.h
@@ -47,7 +47,9 @@ namespace cppsort
         typename Projection,
         typename = detail::enable_if_t<
             not is_comparison_sorter_v<Iterable, Compare, Projection> &&
-            not is_projection_sorter_v<Iterable, Compare, Projection>
+            not is_projection_sorter_v<Iterable, Compare, Projection> &&
+            not is_sorter_iterator_v<Iterable, Compare> &&
+            is_projection_v<Projection, Iterable, Compare>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
@@ -69,7 +71,7 @@ namespace cppsort
     template<
         typename Iterator,
         typename Compare,
-        typename = detail::enable_if_t<not is_sorter_iterator_v<Compare, Iterator>>
+        typename = detail::enable_if_t<not is_sorter_iterator_v<Iterator, Compare>>
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
     auto stable_sort(Iterator first, Iterator last, Compare compare)
@@ -83,8 +85,8 @@ namespace cppsort
         typename Compare,
         typename Projection,
         typename = detail::enable_if_t<
-            not is_comparison_sorter_iterator_v<Compare, Iterator, Projection> &&
-            not is_projection_sorter_iterator_v<Compare, Iterator, Projection>
+            not is_comparison_sorter_iterator_v<Iterator, Compare, Projection> &&
+            not is_projection_sorter_iterator_v<Iterator, Compare, Projection>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
-- 
2.43.0


From 3ce40f24069d67d4f7dd2bd4ae50dd37e3033d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 42/45] fix: empty make_integer_range with a step greater than
 one

---
 include/cpp-sort/utility/make_integer_range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/make_integer_range.h b/include/cpp-sort/utility/make_integer_range.h
index 78f4479..0e477af 100644
--- a/include/cpp-sort/utility/make_integer_range.h
+++ b/include/cpp-sort/utility/make_integer_range.h
@@ -62,7 +62,8 @@ namespace utility
         Integer,
         std::make_integer_sequence<
             Integer,
-            ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
+            Begin == End ? 0 :
+                ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
         >,
         Begin,
         (Step ? Step : 1),
-- 
2.43.0


From 2931350b1090db3bfd46512d766017ad09bf638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 43/45] fix: swap_index_pairs_force_unroll without index pairs
 nor comparator

---
 include/cpp-sort/utility/sorting_networks.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/sorting_networks.h b/include/cpp-sort/utility/sorting_networks.h
index cc79f36..f10cf7a 100644
--- a/include/cpp-sort/utility/sorting_networks.h
+++ b/include/cpp-sort/utility/sorting_networks.h
@@ -118,9 +118,14 @@ namespace utility
         detail::index_pair_swapper_force_unroll<0>::do_it(first, index_pairs, std::move(compare), std::move(projection));
     }
 
-    template<typename RandomAccessIterator, typename IndexType, typename Compare, typename Projection>
+    template<
+        typename RandomAccessIterator,
+        typename IndexType,
+        typename Compare = std::less<>,
+        typename Projection = utility::identity
+    >
     auto swap_index_pairs_force_unroll(RandomAccessIterator, const std::array<index_pair<IndexType>, 0>&,
-                                       Compare, Projection)
+                                       Compare={}, Projection={})
         -> void
     {}
 }}
-- 
2.43.0


From 42d1338d3490bb1185ffc5a389c2b2804e50d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 44/45] fix: utility::size computed the distance of non-const
 arrays

---
 include/cpp-sort/utility/size.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cpp-sort/utility/size.h b/include/cpp-sort/utility/size.h
index 8daaa6d..8f4ea32 100644
--- a/include/cpp-sort/utility/size.h
+++ b/include/cpp-sort/utility/size.h
@@ -66,6 +66,13 @@ namespace utility
     {
         return N;
     }
+
+    template<typename T, std::size_t N>
+    constexpr auto size(T (&)[N]) noexcept
+        -> std::size_t
+    {
+        return N;
+    }
 }}
 
 #endif // CPPSORT_UTILITY_SIZE_H_
-- 
2.43.0


From 6a56541ecb860f2ccdbd22fa184d635f96cbb0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 45/45] fix: container_aware_adapter<merge_sorter> refused
 pointers to member functions as comparators

The comparator was given as is to list::merge and forward_list::merge, which
call it directly.
---
 include/cpp-sort/detail/container_aware/merge_sort.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 9829c39..e70a8b1 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -18,6 +18,7 @@
 #include <cpp-sort/fwd.h>
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
+#include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
 #include "../type_traits.h"
@@ -42,8 +43,9 @@ namespace cppsort
             // part have to be placed first for the algorithm to be stable
             list_merge_sort(collection, compare, projection);
             list_merge_sort(right, compare, projection);
-            collection.merge(std::move(right), make_projection_compare(std::move(compare),
-                                                                       std::move(projection)));
+            collection.merge(std::move(right),
+                             utility::as_function(make_projection_compare(std::move(compare),
+                                                                          std::move(projection))));
         }
 
         template<typename Compare, typename Projection,
@@ -63,8 +65,9 @@ namespace cppsort
             // part have to be placed first for the algorithm to be stable
             flist_merge_sort(collection, size / 2, compare, projection);
             flist_merge_sort(right, size - size / 2, compare, projection);
-            collection.merge(std::move(right), make_projection_compare(std::move(compare),
-                                                                       std::move(projection)));
+            collection.merge(std::move(right),
+                             utility::as_function(make_projection_compare(std::move(compare),
+                                                                          std::move(projection))));
         }
     }
 
-- 
2.43.0

