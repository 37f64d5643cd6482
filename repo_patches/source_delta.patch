From 642e76804adbfaa1ea9f861b0b9a746fb4daca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 01/51] fix: let verge_adapter accept bidirectional iterators

The iterator overload computed last - first, which only random-access
iterators support even though the adapter and verge_sorter accept
bidirectional ones.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..cd0bfcb 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto size = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), size,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From e71bc3db232f6272d46d42f2efa941ee6a20b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 02/51] fix: stop spin_sorter's half merge at the shorter of
 its two runs

merge_half told half_inplace_merge that it could blindly merge as many
elements as there are in the first run, but when the size to sort is odd
the second run is one element shorter: reading past it yielded unsorted
collections or heap corruption, for example for reversed collections.
---
 include/cpp-sort/detail/boost_common/util/merge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..392b322 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -130,8 +130,10 @@ namespace util
             }
         }
 
+        using difference_type = difference_type_t<RandomAccessIterator2>;
+        auto min_len = (std::min)(difference_type(end_buf1 - buf1), end_buf2 - buf2);
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            min_len, compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From 78ca286b3264c7e89a2012693f3f2c19a371172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 03/51] fix: stop the forward recmerge's buffered merge at the
 shorter run

half_inplace_merge blindly merges as many elements as its length argument
says, which must not exceed the length of the shorter run: passing the
length of the first one reads past the end of the second when it is
shorter and lower than every remaining element of the first one.
---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From f6a8d83d69a4d1be1a87663077157b0530227c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 04/51] fix: assign to the objects of wiki_sorter's cache when
 merging

The cache of WikiSort is a buffer of already constructed objects, but the
bottom-up merge of ranges that fit in it went through
buffered_inplace_merge, which constructs objects on top of the existing
ones and destroys them afterwards: the destructors of these objects were
run again when the cache itself was destroyed.
---
 include/cpp-sort/detail/wiki_sort.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..ecf4595 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -19,6 +19,7 @@
 #include <iterator>
 #include <type_traits>
 #include <utility>
+#include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/iter_move.h>
 #include "bitops.h"
@@ -491,9 +492,21 @@ namespace detail
                                 // the two ranges are in reverse order, so a simple rotation should fix it
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
-                                // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // these two ranges weren't already in order, so we need to merge them:
+                                // the cache already contains objects, so we have to assign to them
+                                if (A.length() <= B.length()) {
+                                    auto cache_end = detail::move(A.start, A.end, cache_begin);
+                                    half_inplace_merge(cache_begin, cache_end, B.start, B.end,
+                                                       A.start, A.length(), compare, projection);
+                                } else {
+                                    using rbi = std::reverse_iterator<RandomAccessIterator>;
+                                    using rci = std::reverse_iterator<CacheIterator>;
+                                    auto cache_end = detail::move(B.start, B.end, cache_begin);
+                                    half_inplace_merge(rci(cache_end), rci(cache_begin),
+                                                       rbi(A.end), rbi(A.start),
+                                                       rbi(B.end), B.length(),
+                                                       cppsort::flip(compare), projection);
+                                }
                             }
                         }
                     }
-- 
2.43.0


From 92951d7fe247907d5d308dede44bcc7350ff1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 05/51] fix: keep the lists merged by fixed_size_list
 consistent when a comparison throws

---
 include/cpp-sort/detail/fixed_size_list.h | 45 ++++++-----------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..3d99cb3 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -656,6 +656,10 @@ namespace detail
                     return;
                 }
 
+                // Every splice leaves both lists consistent: compare or
+                // projection might throw, in which case each list must
+                // own exactly the nodes which are still linked to it
+
                 auto other_it = other.begin();
                 auto other_end = other.end();
 
@@ -668,25 +672,16 @@ namespace detail
                         do {
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
-                        fast_splice_(first, insert_begin, other_it);
+                        splice(first, other, insert_begin, other_it);
                     } else {
                         ++first;
                     }
 
                     if (first == last) {
-                        fast_splice_(last, other_it, other_end);
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
-                        other.sentinel_node_.next = &other.sentinel_node_;
-                        other.sentinel_node_.prev = &other.sentinel_node_;
+                        splice(last, other, other_it, other_end);
                         return;
                     }
                 } while (other_it != other_end);
-
-                // Reset the other list's sentinel node,
-                // fast_splice_ does no do it
-                other.sentinel_node_.next = &other.sentinel_node_;
-                other.sentinel_node_.prev = &other.sentinel_node_;
             }
 
             template<typename Compare, typename Projection>
@@ -733,6 +728,9 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.base()->prev->next = insert_first.base();
                         insert_last.base()->next = first.base();
+                        // The other list shouldn't own the spliced nodes anymore
+                        // if compare or projection throws later on
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
@@ -740,16 +738,14 @@ namespace detail
                     if (first == last) {
                         last.base()->prev->next = other_it.base();
                         other_end.base()->prev->next = last.base();
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
+                        // Reset the other list's sentinel node
                         other.sentinel_node_.next = &other.sentinel_node_;
                         other.sentinel_node_.prev = &other.sentinel_node_;
                         return;
                     }
                 }
 
-                // Reset the other list's sentinel node,
-                // fast_splice_ does no do it
+                // Reset the other list's sentinel node
                 other.sentinel_node_.next = &other.sentinel_node_;
                 other.sentinel_node_.prev = &other.sentinel_node_;
             }
@@ -824,25 +820,6 @@ namespace detail
                 node->next->prev = node;
             }
 
-            auto fast_splice_(iterator pos, iterator first, iterator last) noexcept
-                -> void
-            {
-                CPPSORT_ASSERT(first.base() != last.base());
-
-                // This function is like splice(), but it doesn't relink
-                // nodes in the other list: when merging another list into
-                // the current one, we never use the relinked pointers in
-                // the other list, so merge() can just skip relinking them
-                // altogether and just reset the sentinel node at the end
-                // of the operation instead
-
-                // Add the range of elements to this list
-                pos.base()->prev->next = first.base();
-                first.base()->prev = pos.base()->prev;
-                pos.base()->prev = last.base()->prev;
-                last.base()->prev->next = pos.base();
-            }
-
             ////////////////////////////////////////////////////////////
             // Data members
 
-- 
2.43.0


From 72da6eb430187c392a3436fb0604c16e8f126388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 06/51] fix: destroy the moved values when slabsort's
 reification throws

---
 include/cpp-sort/detail/slabsort.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..64c0d15 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -27,6 +27,7 @@
 #include "memory.h"
 #include "stable_partition.h"
 #include "nth_element.h"
+#include "scope_exit.h"
 
 namespace cppsort
 {
@@ -199,13 +200,23 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
+            auto it = list.begin();
+            // If iter_move throws, destroy the values already constructed
+            // and make all of the nodes hold iterators again
+            auto guard = make_scope_exit([&list, &it, &first] {
+                for (auto pos = list.begin() ; pos != it ; ++pos) {
+                    detail::destroy_at(&pos.base()->value);
+                    ::new (&pos.base()->it) BidirectionalIterator(first);
+                }
+                ::new (&it.base()->it) BidirectionalIterator(first);
+            });
+            for (auto end = list.end() ; it != end ; ++it) {
                 auto node = it.base();
                 auto value_it = node->it;
                 detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+                ::new (&node->value) rvalue_type(iter_move(value_it));
             }
+            guard.deactivate();
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
 
-- 
2.43.0


From bbeb0a5b36b794f43ef453e682b5882e119f8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 07/51] fix: put the sizes 33 to 64 in the domain of
 sorting_network_sorter

---
 include/cpp-sort/fixed/sorting_network_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/fixed/sorting_network_sorter.h b/include/cpp-sort/fixed/sorting_network_sorter.h
index 191ac40..d4cf5dc 100644
--- a/include/cpp-sort/fixed/sorting_network_sorter.h
+++ b/include/cpp-sort/fixed/sorting_network_sorter.h
@@ -78,7 +78,7 @@ namespace cppsort
     template<>
     struct fixed_sorter_traits<sorting_network_sorter>
     {
-        using domain = std::make_index_sequence<33>;
+        using domain = std::make_index_sequence<65>;
         using iterator_category = std::random_access_iterator_tag;
         using is_always_stable = std::false_type;
     };
-- 
2.43.0


From d59b3882ef97d42d237d96a80adeec4b9bcd754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 08/51] fix: correct the move weight of low_moves_sorter for 2
 elements

---
 docs/Fixed-size-sorters.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Fixed-size-sorters.md b/docs/Fixed-size-sorters.md
index dd9ce78..d4c65f1 100644
--- a/docs/Fixed-size-sorters.md
+++ b/docs/Fixed-size-sorters.md
@@ -60,7 +60,7 @@ Size | Move weight
 ---- | -----------
 0 | 0
 1 | 0
-2 | 2
+2 | 3
 3 | 17
 4 | 122
 5 | 898
-- 
2.43.0


From c765c12d0ff6b15cc4a0f170e4a862e9e21a6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 09/51] fix: keep both 0.0 and -0.0 when swap_if exchanges
 floating point values

---
 include/cpp-sort/detail/swap_if.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..de14a54 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -59,9 +59,11 @@ namespace detail
     auto swap_if(Float& x, Float& y, std::less<>, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
+        // The order of the parameters matters: it ensures that two
+        // equivalent values (typically 0.0 and -0.0) are both kept
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -77,9 +79,11 @@ namespace detail
     auto swap_if(Float& x, Float& y, std::greater<>, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
+        // The order of the parameters matters: it ensures that two
+        // equivalent values (typically 0.0 and -0.0) are both kept
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From c394700b50c4184eba82a3a4714f220483f3afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 10/51] fix: return the actual maximum of Osc for even sizes
 and for a single element

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..5a55422 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From 20027ed76654f590a6c2a711964d98e98a5707d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 11/51] fix: return a null Block for sorted collections with
 equivalent elements

---
 include/cpp-sort/probes/block.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..35596ca 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,9 +51,11 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
+            // Sort the iterators on pointed values, with a stable algorithm
+            // so that the elements of a sorted collection are followed by
+            // the same elements even when some of them are equivalent
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
                 compare, utility::indirect{} | projection
             );
 
-- 
2.43.0


From d1fbbe4ca7766aca90dc971368c7754c5535ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 12/51] fix: count the equivalent element that closes a cycle
 in Exc

---
 include/cpp-sort/probes/exc.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 7930159..95c72c4 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -76,6 +76,7 @@ namespace probe
 
                 // Process the current cycle
                 if (next != current) {
+                    bool all_equivalent = true;
                     while (next != start) {
                         // If an element is in the place of another element that compares
                         // equivalent, it means that this element was actually already in
@@ -85,6 +86,8 @@ namespace probe
                         if (not comp(proj(*next), proj(*current)) &&
                             not comp(proj(*current), proj(*next))) {
                             ++cycles;
+                        } else {
+                            all_equivalent = false;
                         }
                         // Locate the next element of the cycle
                         current = next;
@@ -92,6 +95,14 @@ namespace probe
                         next = iterators[next_pos];
                         sorted[next_pos] = true;
                     }
+                    // The element that closes the cycle is handled like the others,
+                    // unless all of them are equivalent: it is then the one accounted
+                    // for by the cycle itself
+                    if (not all_equivalent &&
+                        not comp(proj(*start), proj(*current)) &&
+                        not comp(proj(*current), proj(*start))) {
+                        ++cycles;
+                    }
                 }
 
                 ++cycles;
-- 
2.43.0


From ef99fa942ff2480b9dfd113df222ec7a4a25f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 13/51] fix: return a null maximum of Ham for a single element

---
 include/cpp-sort/probes/ham.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/probes/ham.h b/include/cpp-sort/probes/ham.h
index fde0c2a..50365db 100644
--- a/include/cpp-sort/probes/ham.h
+++ b/include/cpp-sort/probes/ham.h
@@ -110,7 +110,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : n;
+                return n < 2 ? 0 : n;
             }
         };
     }
-- 
2.43.0


From 39a4dc51a86a46c6ea1a8a26494d29b898aa3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 14/51] fix: compare what follows equal numbers in
 natural_less, within bounds

---
 docs/Comparators.md                         |  4 ++--
 include/cpp-sort/comparators/natural_less.h | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/docs/Comparators.md b/docs/Comparators.md
index ddc7cd1..7fca0a0 100644
--- a/docs/Comparators.md
+++ b/docs/Comparators.md
@@ -11,7 +11,7 @@ Every non-refined comparator described below is also a [transparent comparator][
 #include <cpp-sort/comparators/total_less.h>
 ```
 
-The comparators `total_less` and `total_order` are [customization points][custom-point] implementing a [total order][total-order], inspired by the similar functions described in [P0100][P0100]. The provided functions handle built-in integer out of the box (using the built-in relational operators) and implement IEEE 754's `totalOrder` for floating point numbers (from lesser to greater):
+The comparators `total_less` and `total_order` are [customization points][custom-point] implementing a [total order][total-order], inspired by the similar functions described in [P0100][P0100]. The provided functions handle built-in integer out of the box (using the built-in relational operators) and implement IEEE 754's `totalOrder` for floating point numbers (from greater to lesser):
 * positive quiet NaNs
 * positive signaling NaNs
 * positive infinity
@@ -38,7 +38,7 @@ Total order comparators are considered as [generating branchless code][branchles
 #include <cpp-sort/comparators/weak_less.h>
 ```
 
-The comparators `weak_less` and `weak_order` are [customization points][custom-point] implementing a [weak order][weak-order], inspired by the similar functions described in [P0100][P0100]. The provided functions handle built-in integer out of the box (falling back to `total_*` functions) and implement a weak order for floating point numbers as suggested by Lawrence Crowl in his [CppCon 2015 presentation][cppcon2015-compare] (from lesser to greater):
+The comparators `weak_less` and `weak_order` are [customization points][custom-point] implementing a [weak order][weak-order], inspired by the similar functions described in [P0100][P0100]. The provided functions handle built-in integer out of the box (falling back to `total_*` functions) and implement a weak order for floating point numbers as suggested by Lawrence Crowl in his [CppCon 2015 presentation][cppcon2015-compare] (from greater to lesser):
 * all positive NaNs equivalent
 * positive infinity
 * positive reals
diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..e0638f3 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -54,18 +54,18 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
                         ++begin1;
                         ++begin2;
                     }
+
+                    // Numbers are equal, compare what follows them
+                    continue;
                 }
 
                 if (begin1 == end1) {
-- 
2.43.0


From 32efbfc64444da00120ad5cf2bcf7b817b1e010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 15/51] fix: disambiguate weak and partial comparators for
 floating point numbers

The generic overloads of weak_less and weak_greater, which fall back to a
total order, were ambiguous with the floating point ones, so that both
comparators could not be called with floating point numbers.
---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0011035 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
-            -> decltype(cppsort::weak_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_greater(lhs, rhs))
+            >
         {
             return cppsort::weak_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..aa658aa 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
-            -> decltype(cppsort::weak_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_less(lhs, rhs))
+            >
         {
             return cppsort::weak_less(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..3f96de3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
-            -> decltype(cppsort::total_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_greater(lhs, rhs))
+            >
         {
             return cppsort::total_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..6254146 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
-            -> decltype(cppsort::total_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_less(lhs, rhs))
+            >
         {
             return cppsort::total_less(lhs, rhs);
         }
-- 
2.43.0


From fe9b524d0c6fd5c8f4d97c5990fe877970ac2929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 16/51] fix: merge single-element runs from where they begin in
 vergesort

When a run of a single element which wasn't the first run had to be
merged, all the elements from the beginning of the collection were
rotated instead of those of the run.
---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 6736373f41dd4920da52fc3e0753a963e51b45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 17/51] fix: let sorted_indices use projections that return
 values

The projection passed to the wrapped sorter always returned a lvalue
reference, which didn't compile with projections returning by value.
---
 include/cpp-sort/utility/sorted_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..1053f0c 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,7 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
+                            [&first, &proj](difference_type index) -> decltype(auto) {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From c966cdc1b7b31df9db0d3b1001ec12994769628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 18/51] fix: counting_sorter handles bool and values at the
 limits of the type

---
 include/cpp-sort/detail/counting_sort.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..bf8e980 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -24,13 +24,14 @@ namespace detail
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
 
-        auto min = *info.min;
-        auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.min;
+        value_type max = *info.max;
+        difference_type value_range = static_cast<difference_type>(max - min) + 1;
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -41,8 +42,10 @@ namespace detail
             ++counts[*it - min];
         }
 
+        difference_type offset = 0;
         for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+            first = std::fill_n(first, count, static_cast<value_type>(min + offset));
+            ++offset;
         }
     }
 
@@ -51,13 +54,14 @@ namespace detail
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
 
-        auto min = *info.max;
-        auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.max;
+        value_type max = *info.min;
+        difference_type value_range = static_cast<difference_type>(max - min) + 1;
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -68,9 +72,11 @@ namespace detail
             ++counts[*it - min];
         }
 
+        difference_type offset = value_range;
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
             auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+            --offset;
+            first = std::fill_n(first, count, static_cast<value_type>(min + offset));
         }
     }
 }}
-- 
2.43.0


From 18d9a48cf1a18c1766223d4736802acf4426fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 19/51] fix: ska_sorter orders negative char and wchar_t like
 operator< does

---
 include/cpp-sort/detail/ska_sort.h | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..12c8edd 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -56,7 +56,7 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        return static_cast<unsigned char>(c) + (std::numeric_limits<char>::is_signed ? 128 : 0);
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +74,10 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        return static_cast<std::uint32_t>(c)
+             + (std::numeric_limits<wchar_t>::is_signed
+                ? std::uint32_t(1) << std::numeric_limits<wchar_t>::digits
+                : std::uint32_t(0));
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +443,44 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    // Strings order their characters with char_traits<char>::lt, which
+    // compares them as unsigned char no matter whether char is signed
+    template<typename T, typename Enable=void>
+    struct is_char_string:
+        std::false_type
+    {};
+
+    template<typename T>
+    struct is_char_string<T, void_t<typename T::traits_type>>:
+        std::is_same<typename T::traits_type::char_type, char>
+    {};
+
+    template<typename T>
+    using list_element_t = conditional_t<
+        is_char_string<T>::value,
+        unsigned char,
+        remove_cvref_t<decltype(std::declval<T>()[0])>
+    >;
+
+    template<typename T, typename U>
+    constexpr auto as_list_element(U&& value) noexcept
+        -> enable_if_t<not is_char_string<T>::value, U&&>
+    {
+        return std::forward<U>(value);
+    }
+
+    template<typename T>
+    constexpr auto as_list_element(char value) noexcept
+        -> enable_if_t<is_char_string<T>::value, unsigned char>
+    {
+        return static_cast<unsigned char>(value);
+    }
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        SubKey<list_element_t<T>>
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = SubKey<list_element_t<T>>;
         using next = ListElementSubKey;
 
         template<typename U>
@@ -453,7 +489,8 @@ namespace detail
         {
             BaseListSortData* list_sort_data = static_cast<BaseListSortData*>(sort_data);
             const T& list = CurrentSubKey::sub_key(value, list_sort_data->next_sort_data);
-            return base::sub_key(list[list_sort_data->current_index], list_sort_data->next_sort_data);
+            return base::sub_key(as_list_element<T>(list[list_sort_data->current_index]),
+                                 list_sort_data->next_sort_data);
         }
     };
 
-- 
2.43.0


From 00ce2a0a3334945754be4140d8fbf1f3a16c57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 20/51] fix: ska_sorter no longer reads from destroyed results
 of projections

---
 include/cpp-sort/detail/ska_sort.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 12c8edd..f0d042f 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -778,7 +778,15 @@ namespace detail
 
             std::size_t current_index = sort_data->current_index;
             void* next_sort_data = sort_data->next_sort_data;
-            auto current_key = [&](auto&& elem) -> decltype(auto) {
+            // Don't return a reference into the result of a projection
+            // when said result is a temporary
+            auto current_key = [&](auto&& elem)
+                -> conditional_t<
+                    std::is_reference<decltype(proj(elem))>::value,
+                    const ListType&,
+                    ListType
+                >
+            {
                 return CurrentSubKey::sub_key(proj(elem), next_sort_data);
             };
             auto element_key = [&](auto&& elem) -> decltype(auto) {
-- 
2.43.0


From c6ee504830e044747d58a2a78e212aeb7db08231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 21/51] fix: ska_sorter no longer reads past the end of empty
 buckets of bool

---
 include/cpp-sort/detail/ska_sort.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index f0d042f..f96143a 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -858,8 +858,12 @@ namespace detail
                 return not CurrentSubKey::sub_key(proj(a), sort_data);
             });
             if (next_sort) {
-                next_sort(begin, middle, middle - begin, projection, sort_data);
-                next_sort(middle, end, end - middle, projection, sort_data);
+                if (not StdSortIfLessThanThreshold<StdSortThreshold>(begin, middle, middle - begin, projection)) {
+                    next_sort(begin, middle, middle - begin, projection, sort_data);
+                }
+                if (not StdSortIfLessThanThreshold<StdSortThreshold>(middle, end, end - middle, projection)) {
+                    next_sort(middle, end, end - middle, projection, sort_data);
+                }
             }
         }
     };
-- 
2.43.0


From 94fbca4ed43b99b4da3e108f9f26e7f5b925f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 22/51] fix: ska_sorter compares all the keys of pairs and
 tuples inside of lists

---
 include/cpp-sort/detail/ska_sort.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index f96143a..26fc22a 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -833,6 +833,13 @@ namespace detail
                          void *next_sort_data)
             -> void
         {
+            if (not std::is_same<SubKey<void>, typename ElementSubKey::base::next>::value) {
+                // The elements of the lists are made of several keys, but
+                // the sort below only ever looks at the first one
+                StdSortFallback(std::move(begin), std::move(end), std::move(projection));
+                return;
+            }
+
             ListSortData<RandomAccessIterator, Projection> offset;
             offset.current_index = 0;
             offset.recursion_limit = 16;
-- 
2.43.0


From 84551cbcfec07b435ebad1458f6e8158a46b3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 23/51] fix: integer_spread_sort computes the range of keys
 without signed overflow

---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..563167f 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0)));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From f8c309ed2dbf342e1b711f567b8bae0f24220171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 24/51] fix: float_spread_sort finds the first positive bin
 when all doubles are negative

---
 .../cpp-sort/detail/spreadsort/detail/float_sort.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..cfddc6e 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -143,7 +143,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -209,7 +209,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -290,10 +290,10 @@ namespace detail
       }
       //The index of the first positive bin
       //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      unsigned first_positive = 0;
+      if (div_min < 0)
+        //When all bins are negative, -div_min might not fit into an integer
+        first_positive = (div_max < 0) ? bin_count : unsigned(-div_min);
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0


From 6bc2fdb1613f63b476137513867f1f9411942db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 25/51] fix: ska_sorter treats negative and positive zeros as
 equivalent

---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 26fc22a..c0ad2c2 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -120,7 +120,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // Negative and positive zeros are equivalent
+        auto u = memcpy_cast<std::uint32_t>(f == 0.0f ? 0.0f : f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -128,7 +129,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // Negative and positive zeros are equivalent
+        auto u = memcpy_cast<std::uint64_t>(f == 0.0 ? 0.0 : f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From 8a4172fee60be8abab773f290bc248577735c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 26/51] fix: construct hybrid_adapter from instances of nested
 hybrid_adapters

---
 include/cpp-sort/adapters/hybrid_adapter.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..8344e7b 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -242,13 +242,13 @@ namespace cppsort
                 hybrid_adapter_impl() = default;
 
                 template<std::size_t... Indices>
-                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters&&...>&& sorters,
+                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters...>&& sorters,
                                                        std::index_sequence<Indices...>):
                     base_class(std::move(std::get<Indices>(sorters))...)
                 {}
 
                 template<std::size_t... Indices>
-                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters&&...>&& sorters):
+                constexpr explicit hybrid_adapter_impl(std::tuple<Sorters...>&& sorters):
                     hybrid_adapter_impl(std::move(sorters), std::make_index_sequence<sizeof...(Sorters)>{})
                 {}
 
@@ -364,14 +364,14 @@ namespace cppsort
             template<typename... Args, std::size_t... Indices>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value,
                                                         std::index_sequence<Indices...>)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::tuple<Args...>(std::move(value).template get<Indices>()...);
             }
 
             template<typename... Args>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value)
-                -> decltype(auto)
+                -> std::tuple<Args...>
             {
                 return get_sorters_from_impl(std::move(value), std::make_index_sequence<sizeof...(Args)>{});
             }
@@ -380,10 +380,10 @@ namespace cppsort
             static constexpr auto get_flat_tuple(Sorter&& value)
                 -> detail::enable_if_t<
                     not detail::is_specialization_of_v<detail::remove_cvref_t<Sorter>, cppsort::hybrid_adapter>,
-                    std::tuple<std::remove_reference_t<Sorter>&&>
+                    std::tuple<Sorter>
                 >
             {
-                return std::forward_as_tuple(std::move(value));
+                return std::tuple<Sorter>(std::move(value));
             }
 
             template<typename Sorter>
-- 
2.43.0


From a59d36d00bf6b4ee9930d879dad936ec5d7098ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 27/51] fix: self_sort_adapter does not pass projections to the
 sort method of lists

---
 include/cpp-sort/adapters/self_sort_adapter.h | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..caa4327 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -23,6 +23,25 @@ namespace cppsort
 {
     namespace detail
     {
+        ////////////////////////////////////////////////////////////
+        // The sort method of the standard library lists accepts any
+        // function but only knows how to use it as a comparison
+
+        template<typename Iterable, typename... Args>
+        struct is_list_projection:
+            std::false_type
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::forward_list<T, Allocator>, Function>:
+            std::integral_constant<bool, is_projection_v<Function, std::forward_list<T, Allocator>&>>
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::list<T, Allocator>, Function>:
+            std::integral_constant<bool, is_projection_v<Function, std::list<T, Allocator>&>>
+        {};
+
         ////////////////////////////////////////////////////////////
         // Whether a class has a member sort method
 
@@ -38,7 +57,8 @@ namespace cppsort
             typename... Args
         >
         constexpr bool has_sort_method
-            = is_detected_v<has_sort_method_t, Iterable, Args...>;
+            = not is_list_projection<remove_cvref_t<Iterable>, Args...>::value
+           && is_detected_v<has_sort_method_t, Iterable, Args...>;
 
         template<
             typename Iterable,
-- 
2.43.0


From f136e677cf5b98a0c91d59ba13db80163a6b28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 28/51] fix: is_stable of indirect, out-of-place and schwartz
 adapters is sound

---
 include/cpp-sort/adapters/indirect_adapter.h  | 10 +---
 .../cpp-sort/adapters/out_of_place_adapter.h  | 10 +---
 include/cpp-sort/adapters/schwartz_adapter.h  | 60 +++++++++++++++++++
 3 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/include/cpp-sort/adapters/indirect_adapter.h b/include/cpp-sort/adapters/indirect_adapter.h
index a08fd0e..a676c8c 100644
--- a/include/cpp-sort/adapters/indirect_adapter.h
+++ b/include/cpp-sort/adapters/indirect_adapter.h
@@ -211,13 +211,9 @@ namespace cppsort
         {}
     };
 
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<indirect_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
+    // No is_stable specialization: the adapted sorter is called with
+    // a collection of iterators and not with the original arguments,
+    // so only its being always stable can be relied on
 }
 
 #endif // CPPSORT_ADAPTERS_INDIRECT_ADAPTER_H_
diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..ca440fd 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -103,13 +103,9 @@ namespace cppsort
         using iterator_category = std::forward_iterator_tag;
     };
 
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<out_of_place_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
+    // No is_stable specialization: the adapted sorter is called with
+    // the iterators of a buffer and not with the original arguments,
+    // so only its being always stable can be relied on
 }
 
 #endif // CPPSORT_ADAPTERS_OUT_OF_PLACE_ADAPTER_H_
diff --git a/include/cpp-sort/adapters/schwartz_adapter.h b/include/cpp-sort/adapters/schwartz_adapter.h
index a0685ba..d02893c 100644
--- a/include/cpp-sort/adapters/schwartz_adapter.h
+++ b/include/cpp-sort/adapters/schwartz_adapter.h
@@ -239,11 +239,71 @@ namespace cppsort
 
     ////////////////////////////////////////////////////////////
     // is_stable specialization
+    //
+    // The adapted sorter is called with the original arguments when
+    // there is no projection to handle, and with a collection of
+    // associations otherwise, in which case only its being always
+    // stable can be relied on
+
+    namespace detail
+    {
+        template<typename Projection>
+        constexpr bool is_bypassed_projection
+            = std::is_same<remove_cvref_t<Projection>, utility::identity>::value
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+            || std::is_same<remove_cvref_t<Projection>, std::identity>::value
+#endif
+            ;
+
+        template<typename Sorter>
+        using is_always_stable_t = std::integral_constant<bool, cppsort::is_always_stable_v<Sorter>>;
+    }
 
     template<typename Sorter, typename... Args>
     struct is_stable<schwartz_adapter<Sorter>(Args...)>:
         is_stable<Sorter(Args...)>
     {};
+
+    template<typename Sorter, typename Iterable, typename Function>
+    struct is_stable<schwartz_adapter<Sorter>(Iterable, Function)>:
+        detail::conditional_t<
+            is_projection_v<Function, Iterable>,
+            detail::is_always_stable_t<Sorter>,
+            is_stable<Sorter(Iterable, Function)>
+        >
+    {};
+
+    template<typename Sorter, typename Iterator>
+    struct is_stable<schwartz_adapter<Sorter>(Iterator, Iterator)>:
+        is_stable<Sorter(Iterator, Iterator)>
+    {};
+
+    template<typename Sorter, typename Iterable, typename Compare, typename Projection>
+    struct is_stable<schwartz_adapter<Sorter>(Iterable, Compare, Projection)>:
+        detail::conditional_t<
+            detail::is_bypassed_projection<Projection>,
+            is_stable<Sorter(Iterable, Compare, Projection)>,
+            detail::is_always_stable_t<Sorter>
+        >
+    {};
+
+    template<typename Sorter, typename Iterator, typename Function>
+    struct is_stable<schwartz_adapter<Sorter>(Iterator, Iterator, Function)>:
+        detail::conditional_t<
+            is_projection_iterator_v<Function, detail::remove_cvref_t<Iterator>>,
+            detail::is_always_stable_t<Sorter>,
+            is_stable<Sorter(Iterator, Iterator, Function)>
+        >
+    {};
+
+    template<typename Sorter, typename Iterator, typename Compare, typename Projection>
+    struct is_stable<schwartz_adapter<Sorter>(Iterator, Iterator, Compare, Projection)>:
+        detail::conditional_t<
+            detail::is_bypassed_projection<Projection>,
+            is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+            detail::is_always_stable_t<Sorter>
+        >
+    {};
 }
 
 #ifdef CPPSORT_ADAPTERS_SMALL_ARRAY_ADAPTER_H_
-- 
2.43.0


From 8f415a3a99312e4083c67c5916328dc0bc189a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 29/51] fix: is_stable of hybrid_adapter is not a hard error
 for impossible calls

---
 include/cpp-sort/adapters/hybrid_adapter.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 8344e7b..93d8844 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -408,9 +408,26 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specializations
 
+    namespace detail
+    {
+        template<typename Void, typename HybridAdapter, typename... Args>
+        struct hybrid_stability:
+            // None of the sorters can be called with these parameters
+            std::false_type
+        {};
+
+        template<typename HybridAdapter, typename... Args>
+        struct hybrid_stability<
+            void_t<decltype(HybridAdapter::_detail_stability(std::declval<Args&>()...))>,
+            HybridAdapter, Args...
+        >:
+            decltype(HybridAdapter::_detail_stability(std::declval<Args&>()...))
+        {};
+    }
+
     template<typename... Sorters, typename... Args>
     struct is_stable<hybrid_adapter<Sorters...>(Args...)>:
-        decltype(hybrid_adapter<Sorters...>::_detail_stability(std::declval<Args&>()...))
+        detail::hybrid_stability<void, hybrid_adapter<Sorters...>, Args...>
     {};
 }
 
-- 
2.43.0


From 2617d9b8853f5972ec401279bfd6a67e88d6ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 30/51] fix: make_stable can only be called with what the
 adapted sorter accepts

---
 include/cpp-sort/adapters/stable_adapter.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/adapters/stable_adapter.h b/include/cpp-sort/adapters/stable_adapter.h
index ba01af2..3672a07 100644
--- a/include/cpp-sort/adapters/stable_adapter.h
+++ b/include/cpp-sort/adapters/stable_adapter.h
@@ -86,7 +86,14 @@ namespace cppsort
         >
         auto make_stable_and_sort(ForwardIterator first, difference_type_t<ForwardIterator> size,
                                   Compare&& compare, Projection&& projection, Sorter&& sorter)
-            -> decltype(auto)
+            -> decltype(std::forward<Sorter>(sorter)(
+                make_associate_iterator((association<ForwardIterator, difference_type_t<ForwardIterator>>*)0),
+                make_associate_iterator((association<ForwardIterator, difference_type_t<ForwardIterator>>*)0),
+                make_stable_compare(
+                    std::forward<Compare>(compare),
+                    std::forward<Projection>(projection)
+                )
+            ))
         {
             using difference_type = difference_type_t<ForwardIterator>;
             using value_t = association<ForwardIterator, difference_type>;
@@ -138,7 +145,9 @@ namespace cppsort
             >
             auto operator()(ForwardIterable&& iterable,
                             Compare compare={}, Projection projection={}) const
-                -> decltype(auto)
+                -> decltype(make_stable_and_sort(std::begin(iterable), utility::size(iterable),
+                                                 std::move(compare), std::move(projection),
+                                                 this->get()))
             {
                 return make_stable_and_sort(std::begin(iterable), utility::size(iterable),
                                             std::move(compare), std::move(projection),
@@ -155,7 +164,9 @@ namespace cppsort
             >
             auto operator()(ForwardIterator first, ForwardIterator last,
                             Compare compare={}, Projection projection={}) const
-                -> decltype(auto)
+                -> decltype(make_stable_and_sort(first, std::distance(first, last),
+                                                 std::move(compare), std::move(projection),
+                                                 this->get()))
             {
                 return make_stable_and_sort(first, std::distance(first, last),
                                             std::move(compare), std::move(projection),
-- 
2.43.0


From cafadaf84716cbd5c57d8aa2abb2215112b7002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 31/51] fix: out_of_place_adapter can only be called with what
 the adapted sorter accepts

---
 .../cpp-sort/adapters/out_of_place_adapter.h  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index ca440fd..db9a1e9 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -32,7 +32,17 @@ namespace cppsort
         template<typename Sorter, typename ForwardIterator, typename Size, typename... Args>
         auto sort_out_of_place(ForwardIterator first, ForwardIterator last,
                                Size size, const Sorter& sorter, Args&&... args)
-            -> decltype(auto)
+#ifdef __cpp_lib_uncaught_exceptions
+            -> decltype(sorter(
+                (rvalue_type_t<ForwardIterator>*)0, (rvalue_type_t<ForwardIterator>*)0,
+                std::forward<Args>(args)...
+            ))
+#else
+            -> void_t<decltype(sorter(
+                (rvalue_type_t<ForwardIterator>*)0, (rvalue_type_t<ForwardIterator>*)0,
+                std::forward<Args>(args)...
+            ))>
+#endif
         {
             using rvalue_type = rvalue_type_t<ForwardIterator>;
 
@@ -81,7 +91,8 @@ namespace cppsort
 
         template<typename Iterator, typename... Args>
         auto operator()(Iterator first, Iterator last, Args&&... args) const
-            -> decltype(auto)
+            -> decltype(detail::sort_out_of_place(first, last, std::distance(first, last),
+                                                  this->get(), std::forward<Args>(args)...))
         {
             auto size = std::distance(first, last);
             return detail::sort_out_of_place(first, last, size, this->get(), std::forward<Args>(args)...);
@@ -89,7 +100,9 @@ namespace cppsort
 
         template<typename Iterable, typename... Args>
         auto operator()(Iterable&& iterable, Args&&... args) const
-            -> decltype(auto)
+            -> decltype(detail::sort_out_of_place(std::begin(iterable), std::end(iterable),
+                                                  utility::size(iterable), this->get(),
+                                                  std::forward<Args>(args)...))
         {
             // Might be an optimization for forward/bidirectional iterables
             auto size = utility::size(iterable);
-- 
2.43.0


From eb6560bbfd6863f4fd46ae391c1b18211b0926ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 32/51] fix: sorter_facade considers the range overloads of the
 implementation

The overloads for ranges handling projections to bake in a comparison,
std::less and identity only tested the iterator overloads of the sorter
implementation: calls were ambiguous or ran another overload than the
range overload the implementation provides.
---
 include/cpp-sort/sorter_facade.h | 72 +++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index f18c2b2..37cf39b 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -429,6 +429,7 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>) const
             -> detail::enable_if_t<
+                not detail::has_comparison_sort<Sorter, Iterable, std::less<>>::value &&
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -454,6 +455,7 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::ranges::less) const
             -> detail::enable_if_t<
+                not detail::has_comparison_sort<Sorter, Iterable, std::ranges::less>::value &&
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -488,10 +490,17 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, utility::identity) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<Sorter, Iterable, utility::identity>::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    utility::identity
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                utility::identity
+                    utility::identity
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
@@ -525,10 +534,17 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<Sorter, Iterable, std::identity>::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    std::identity
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                std::identity
+                    std::identity
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
@@ -630,6 +646,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>, utility::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    utility::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -661,6 +683,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    std::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -833,6 +861,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::ranges::less, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::ranges::less,
+                    std::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1044,6 +1078,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1074,6 +1119,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1114,6 +1170,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1141,6 +1203,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-- 
2.43.0


From 387038625b09f40e5178f34e70dfe41f74567383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 33/51] fix: stable_sort accepts rvalue sorters with iterators

The overloads without a sorter mistook the sorter for an iterable, or
checked the sorter traits with their parameters swapped: mirror the
conditions of cppsort::sort.
---
 include/cpp-sort/stable_sort.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/stable_sort.h b/include/cpp-sort/stable_sort.h
index 0265046..468abad 100644
--- a/include/cpp-sort/stable_sort.h
+++ b/include/cpp-sort/stable_sort.h
@@ -47,7 +47,9 @@ namespace cppsort
         typename Projection,
         typename = detail::enable_if_t<
             not is_comparison_sorter_v<Iterable, Compare, Projection> &&
-            not is_projection_sorter_v<Iterable, Compare, Projection>
+            not is_projection_sorter_v<Iterable, Compare, Projection> &&
+            not is_sorter_iterator_v<Iterable, Compare> &&
+            is_projection_v<Projection, Iterable, Compare>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
@@ -69,7 +71,7 @@ namespace cppsort
     template<
         typename Iterator,
         typename Compare,
-        typename = detail::enable_if_t<not is_sorter_iterator_v<Compare, Iterator>>
+        typename = detail::enable_if_t<not is_sorter_iterator_v<Iterator, Compare>>
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
     auto stable_sort(Iterator first, Iterator last, Compare compare)
@@ -83,8 +85,8 @@ namespace cppsort
         typename Compare,
         typename Projection,
         typename = detail::enable_if_t<
-            not is_comparison_sorter_iterator_v<Compare, Iterator, Projection> &&
-            not is_projection_sorter_iterator_v<Compare, Iterator, Projection>
+            not is_comparison_sorter_iterator_v<Iterator, Compare, Projection> &&
+            not is_projection_sorter_iterator_v<Iterator, Compare, Projection>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
-- 
2.43.0


From d109fd659152c837df24d931171ce045bd1a9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 34/51] fix: merge_sorter is stable over lists with
 container_aware_adapter

std::list::merge takes equivalent elements from *this first, so the left part has to stay in the collection.
---
 .../detail/container_aware/merge_sort.h       | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..c0f3735 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -33,16 +33,17 @@ namespace cppsort
         {
             if (collection.size() < 2) return;
 
-            // Extract left part
-            auto first = collection.begin();
-            auto middle = std::next(first, collection.size() / 2);
-            std::list<Args...> left(collection.get_allocator());
-            left.splice(left.begin(), collection, first, middle);
+            // Extract right part: merge() takes equivalent elements
+            // from *this first, so the left part has to remain in
+            // the original collection for the sort to be stable
+            auto middle = std::next(collection.begin(), collection.size() / 2);
+            std::list<Args...> right(collection.get_allocator());
+            right.splice(right.begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
+            list_merge_sort(right, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
                                                                       std::move(projection)));
         }
 
@@ -54,16 +55,17 @@ namespace cppsort
         {
             if (size < 2) return;
 
-            // Extract left part
-            auto first = collection.before_begin();
-            auto middle = std::next(first, size / 2 + 1);
-            std::forward_list<Args...> left(collection.get_allocator());
-            left.splice_after(left.before_begin(), collection, first, middle);
+            // Extract right part: merge() takes equivalent elements
+            // from *this first, so the left part has to remain in
+            // the original collection for the sort to be stable
+            auto middle = std::next(collection.before_begin(), size / 2);
+            std::forward_list<Args...> right(collection.get_allocator());
+            right.splice_after(right.before_begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            flist_merge_sort(left, size / 2, compare, projection);
-            flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
+            flist_merge_sort(collection, size / 2, compare, projection);
+            flist_merge_sort(right, size - size / 2, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
                                                                       std::move(projection)));
         }
     }
-- 
2.43.0


From 1bc3f3a1f66e7767b1538ffde0b71a93d98e9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 35/51] fix: container_aware_adapter accepts pairs of iterators

The documentation says that the adapted sorter is called for everything but collections with a specific algorithm; rvalue iterators matched no overload.
---
 .../adapters/container_aware_adapter.h        | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index d53b5a4..6cf9fd3 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -98,6 +98,57 @@ namespace cppsort
                 utility::adapter_storage<Sorter>(std::move(sorter))
             {}
 
+            ////////////////////////////////////////////////////////////
+            // Pairs of iterators: always call the adapted sorter
+
+            template<
+                bool Stability = false,
+                typename Iterator
+            >
+            auto operator()(Iterator first, Iterator last) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator)>,
+                    decltype(this->get()(std::move(first), std::move(last)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Function
+            >
+            auto operator()(Iterator first, Iterator last, Function function) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Function)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(function)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(function));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Compare,
+                typename Projection
+            >
+            auto operator()(Iterator first, Iterator last, Compare compare, Projection projection) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(compare), std::move(projection)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(compare), std::move(projection));
+            }
+
+            ////////////////////////////////////////////////////////////
+            // Collections
+
             template<
                 bool Stability = false,
                 typename Iterable
-- 
2.43.0


From 416a4bf44b1873fd493abdb92bb0d53ab474b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 36/51] fix: is_stable of
 container_aware_adapter<insertion_sorter> is not a hard error

---
 .../detail/container_aware/insertion_sort.h   | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..1d1a8d5 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -106,6 +106,8 @@ namespace cppsort
             std::is_empty<insertion_sorter>::value
         >
     {
+        using detail::container_aware_adapter_base<insertion_sorter>::operator();
+
         container_aware_adapter() = default;
         constexpr explicit container_aware_adapter(insertion_sorter) noexcept {}
 
@@ -194,26 +196,6 @@ namespace cppsort
         {
             detail::flist_insertion_sort(iterable, std::move(compare), std::move(projection));
         }
-
-        ////////////////////////////////////////////////////////////
-        // Generic overload
-
-        template<
-            typename First, typename... Args,
-            typename = detail::enable_if_t<
-                not detail::is_specialization_of_v<detail::remove_cvref_t<First>, std::list> &&
-                not detail::is_specialization_of_v<detail::remove_cvref_t<First>, std::forward_list>
-            >
-        >
-        auto operator()(First&& first, Args&&... args) const
-            -> decltype(detail::container_aware_adapter_base<insertion_sorter>::operator()(
-                   std::forward<First>(first), std::forward<Args>(args)...
-            ))
-        {
-            return detail::container_aware_adapter_base<insertion_sorter>::operator()(
-                std::forward<First>(first), std::forward<Args>(args)...
-            );
-        }
     };
 }
 
-- 
2.43.0


From ca311fafc0b16f05937099fa505efc6b0b70ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 37/51] fix: container-aware mel sort uses the allocator of the
 collection

Splicing nodes between lists with unequal allocators is undefined behaviour.
---
 include/cpp-sort/detail/container_aware/mel_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..005be5d 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -41,7 +41,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -68,7 +68,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -115,8 +115,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& alloc):
+                    list(alloc),
                     last(list.begin())
                 {}
 
@@ -126,7 +126,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -158,7 +158,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
-- 
2.43.0


From 690cd6d5f5e9a47d84dbbaf2cdf480027e81ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 38/51] fix: metrics with different value types can be assigned

The converting assignment operators accessed a private member of another class template specialization.
---
 include/cpp-sort/utility/metrics_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..50b7646 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -91,7 +91,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, const U&>::value)
                 -> metric&
             {
-                _value = other._value;
+                _value = other.value();
                 return *this;
             }
 
@@ -100,7 +100,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, U>::value)
                 -> metric&
             {
-                _value = std::move(other._value);
+                _value = std::move(other).value();
                 return *this;
             }
 
-- 
2.43.0


From 82acf5f0f94e067ee319c3776824a005c54ac50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 39/51] fix: cartesian_tree_sorter accepts projections without
 a const operator()

metrics::projections<cartesian_tree_sorter> did not compile.
---
 include/cpp-sort/detail/cartesian_tree_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..440afd6 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -128,7 +128,8 @@ namespace detail
         pq.push_back(tree.root());
 
         auto&& comp = cppsort::flip(compare);
-        auto proj_value = [proj=utility::as_function(projection)](auto* node) -> decltype(auto) {
+        auto&& proj = utility::as_function(projection);
+        auto proj_value = [&proj](auto* node) -> decltype(auto) {
             return proj(static_cast<node_type*>(node)->value);
         };
 
-- 
2.43.0


From bbab1c4c27959121c58257afe89128c671db1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 40/51] fix: grail_sorter lost an element with a buffer of a
 single element

---
 include/cpp-sort/detail/grail_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..e1da31b 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -477,7 +477,8 @@ namespace grail
         }
 
         difference_type h;
-        if (kbuf) {
+        // the smallest blocks are shifted by two elements
+        if (kbuf > 1) {
             detail::move(first - kbuf, first, extbuf);
             for (difference_type m = 1 ; m < size ; m += 2) {
                 difference_type u = 0;
-- 
2.43.0


From 438f6455ffef75c97cb88a4537de01caf335e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 41/51] fix: grail_sorter and wiki_sorter asked for a buffer
 for empty collections

---
 include/cpp-sort/detail/grail_sort.h | 4 +++-
 include/cpp-sort/detail/wiki_sort.h  | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index e1da31b..06fa6da 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -746,8 +746,10 @@ namespace grail
                     Compare compare, Projection projection)
         -> void
     {
-        // Allocate temporary buffer
         auto size = last - first;
+        if (size < 2) return;
+
+        // Allocate temporary buffer
         typename BufferProvider::template buffer<rvalue_type_t<RandomAccessIterator>> buffer(size);
 
         using compare_t = std::remove_reference_t<decltype(utility::as_function(compare))>;
diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index ecf4595..93140e2 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -931,11 +931,14 @@ namespace detail
                    Compare compare, Projection projection)
         -> void
     {
+        auto size = last - first;
+        if (size < 2) return;
+
         // use a small cache to speed up some of the operations
         // just keep in mind that making it too small ruins the point (nothing will fit into it),
         // and making it too large also ruins the point (so much for "low memory"!)
         using rvalue_type = rvalue_type_t<RandomAccessIterator>;
-        typename BufferProvider::template buffer<rvalue_type> cache(last - first);
+        typename BufferProvider::template buffer<rvalue_type> cache(size);
 
         Wiki::sort(std::move(first), std::move(last),
                    cache.begin(), cache.size(),
-- 
2.43.0


From d97e630aab9069e229c1de1de750f9e2806e3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 42/51] fix: document that utility::log is the natural
 logarithm

---
 docs/Miscellaneous-utilities.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Miscellaneous-utilities.md b/docs/Miscellaneous-utilities.md
index c988863..281d6b8 100644
--- a/docs/Miscellaneous-utilities.md
+++ b/docs/Miscellaneous-utilities.md
@@ -195,7 +195,7 @@ struct indirect:
 
 This header also provides additional function objects implementing basic unary operations. These functions objects are designed to be used as *size policies* with `dynamic_buffer` and similar classes. The following function objects are available:
 * `half`: returns the passed value divided by 2.
-* `log`: returns the base 10 logarithm of the passed value.
+* `log`: returns the natural logarithm of the passed value.
 * `sqrt`: returns the square root of the passed value.
 
 All of those function objects inherit from `projection_base` and are [*transparent function objects*][transparent-func].
-- 
2.43.0


From 4c3b91d6a02f1347c2d03f5a7d472dfd23ec2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 43/51] fix: grail_sorter used keys already given away to the
 comparison

---
 include/cpp-sort/detail/three_way_compare.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/three_way_compare.h b/include/cpp-sort/detail/three_way_compare.h
index 86910fb..36583aa 100644
--- a/include/cpp-sort/detail/three_way_compare.h
+++ b/include/cpp-sort/detail/three_way_compare.h
@@ -27,8 +27,12 @@ namespace detail
                 -> int
             {
                 auto&& compare = derived().base();
-                return compare(std::forward<T>(lhs), std::forward<U>(rhs)) ? -1 :
-                       compare(std::forward<U>(rhs), std::forward<T>(lhs));
+                // The parameters are used twice, don't let the first
+                // comparison take what the second one needs
+                if (compare(lhs, rhs)) {
+                    return -1;
+                }
+                return compare(std::forward<U>(rhs), std::forward<T>(lhs)) ? 1 : 0;
             }
 
             template<typename T, typename U>
-- 
2.43.0


From b5bca90a35cd4b50b35ec8a8d5a37a7ed4cd9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 44/51] fix: swap_if with std::ranges::less or greater called
 itself forever

The C++20 overloads for arithmetic types forwarded to themselves instead of
the overloads for std::less<> and std::greater<>.
---
 include/cpp-sort/detail/swap_if.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index de14a54..868f70f 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -118,31 +118,31 @@ namespace detail
 
 #ifdef __cpp_lib_ranges
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Integer>
-- 
2.43.0


From b3b4c203d6a6d04f117e2b840a044fd64d02fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 45/51] fix: sorted_indices with iterators that return
 temporary objects

The result of projecting a temporary (the proxies of std::vector<bool> with
utility::identity for example) was a reference to it.
---
 include/cpp-sort/utility/sorted_indices.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 1053f0c..2ce7584 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -63,13 +63,24 @@ namespace utility
                 using difference_type = cppsort::detail::difference_type_t<RandomAccessIterator>;
                 auto&& proj = utility::as_function(projection);
 
+                // When the iterators return a temporary object, a reference
+                // returned by the projection might not outlive it
+                using reference = decltype(first[std::declval<difference_type>()]);
+                using projected = decltype(proj(first[std::declval<difference_type>()]));
+                using result_type = cppsort::detail::conditional_t<
+                    std::is_rvalue_reference<projected>::value &&
+                        not std::is_reference<reference>::value,
+                    cppsort::detail::remove_cvref_t<projected>,
+                    projected
+                >;
+
                 // Create a vector of indices
                 std::vector<difference_type> indices(last - first, 0);
                 std::iota(indices.begin(), indices.end(), 0);
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> decltype(auto) {
+                            [&first, &proj](difference_type index) -> result_type {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From b9205d593bb5bfcc89a87a237cc864993468f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 46/51] fix: is_stable of sorted_indices and sorted_iterators
 is sound

The adapted sorter sorts a vector of indices or iterators, it may choose
another algorithm than for the original arguments (hybrid_adapter).
---
 include/cpp-sort/utility/sorted_indices.h   | 10 +++-------
 include/cpp-sort/utility/sorted_iterators.h | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 2ce7584..8bd6cc9 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -109,13 +109,9 @@ namespace utility
 
 namespace cppsort
 {
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<cppsort::utility::sorted_indices<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
+    // No is_stable specialization: the adapted sorter is called with
+    // a vector of indices and not with the original arguments,
+    // so only its being always stable can be relied on
 }
 
 #endif // CPPSORT_UTILITY_SORTED_INDICES_H_
diff --git a/include/cpp-sort/utility/sorted_iterators.h b/include/cpp-sort/utility/sorted_iterators.h
index abed120..e7d329a 100644
--- a/include/cpp-sort/utility/sorted_iterators.h
+++ b/include/cpp-sort/utility/sorted_iterators.h
@@ -131,13 +131,9 @@ namespace utility
 
 namespace cppsort
 {
-    ////////////////////////////////////////////////////////////
-    // is_stable specialization
-
-    template<typename Sorter, typename... Args>
-    struct is_stable<cppsort::utility::sorted_iterators<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
-    {};
+    // No is_stable specialization: the adapted sorter is called with
+    // a vector of iterators and not with the original arguments,
+    // so only its being always stable can be relied on
 }
 
 #endif // CPPSORT_UTILITY_SORTED_ITERATORS_H_
-- 
2.43.0


From 1c02475ebf80239043d3bc66c6871cbfe4ca0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 47/51] fix: elements moved out of a collection by
 schwartz_adapter and stable_adapter

associate_iterator moved elements with std::move(*it) even when the iterator has
an iter_move of its own, so adapting an adapter that sorts proxies did not
compile or moved the wrong thing, and the moves were noexcept even when the
element's may throw.
---
 include/cpp-sort/detail/associate_iterator.h | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..5ac0a63 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -38,6 +38,15 @@ namespace detail
     template<typename Value, typename Data>
     struct associated_value;
 
+    // Type of an element once moved out of the original collection,
+    // iterators with a dedicated iter_move know better
+    template<typename Iterator>
+    using associated_value_type_t = conditional_t<
+        has_iter_move_v<Iterator>,
+        rvalue_type_t<Iterator>,
+        value_type_t<Iterator>
+    >;
+
     template<typename Iterator, typename Data>
     struct association
     {
@@ -64,15 +73,16 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
 
-        auto operator=(associated_value<value_type_t<Iterator>, Data>&& other)
+        auto operator=(associated_value<associated_value_type_t<Iterator>, Data>&& other)
             -> association&
         {
             *it = std::move(other.value);
@@ -342,12 +352,13 @@ namespace detail
             CPPSORT_ATTRIBUTE_NODISCARD
             friend auto iter_move(associate_iterator it)
                 -> associated_value<
-                    value_type_t<typename value_type_t<Iterator>::iterator_type>,
+                    associated_value_type_t<typename value_type_t<Iterator>::iterator_type>,
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From 547420ca59521596658a472d4f6945c554061035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 48/51] fix: result of composed projections when the first one
 returns a temporary

An rvalue reference returned by the second projection referred to the temporary
object returned by the first one, already destroyed.
---
 include/cpp-sort/utility/functional.h | 37 ++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index cc50947..f723781 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -34,6 +34,15 @@ namespace utility
 
     namespace detail
     {
+        // An rvalue reference returned by the second function might not
+        // outlive a temporary object returned by the first one
+        template<typename Intermediate, typename Result>
+        using pipe_result_t = cppsort::detail::conditional_t<
+            std::is_rvalue_reference<Result>::value && not std::is_reference<Intermediate>::value,
+            cppsort::detail::remove_cvref_t<Result>,
+            Result
+        >;
+
         template<typename T, typename U>
         struct projection_base_pipe_result:
             projection_base,
@@ -49,16 +58,36 @@ namespace utility
 
             template<typename Arg>
             constexpr auto operator()(Arg&& value)
-                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))))
-                -> decltype(rhs(lhs(std::forward<Arg>(value))))
+                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))) &&
+                         std::is_nothrow_constructible<
+                            pipe_result_t<
+                                decltype(lhs(std::forward<Arg>(value))),
+                                decltype(rhs(lhs(std::forward<Arg>(value))))
+                            >,
+                            decltype(rhs(lhs(std::forward<Arg>(value))))
+                         >::value)
+                -> pipe_result_t<
+                    decltype(lhs(std::forward<Arg>(value))),
+                    decltype(rhs(lhs(std::forward<Arg>(value))))
+                >
             {
                 return rhs(lhs(std::forward<Arg>(value)));
             }
 
             template<typename Arg>
             constexpr auto operator()(Arg&& value) const
-                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))))
-                -> decltype(rhs(lhs(std::forward<Arg>(value))))
+                noexcept(noexcept(rhs(lhs(std::forward<Arg>(value)))) &&
+                         std::is_nothrow_constructible<
+                            pipe_result_t<
+                                decltype(lhs(std::forward<Arg>(value))),
+                                decltype(rhs(lhs(std::forward<Arg>(value))))
+                            >,
+                            decltype(rhs(lhs(std::forward<Arg>(value))))
+                         >::value)
+                -> pipe_result_t<
+                    decltype(lhs(std::forward<Arg>(value))),
+                    decltype(rhs(lhs(std::forward<Arg>(value))))
+                >
             {
                 return rhs(lhs(std::forward<Arg>(value)));
             }
-- 
2.43.0


From 761a1a945d5f9e658c88a5151b2750960ef14551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 49/51] fix: drop_merge_sort of collections of bool

The dropped elements were kept in a std::vector<bool>, which has no objects to
refer to.
---
 include/cpp-sort/detail/drop_merge_sort.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/drop_merge_sort.h b/include/cpp-sort/detail/drop_merge_sort.h
index 962bb82..f748c69 100644
--- a/include/cpp-sort/detail/drop_merge_sort.h
+++ b/include/cpp-sort/detail/drop_merge_sort.h
@@ -27,6 +27,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <deque>
 #include <iterator>
 #include <type_traits>
 #include <utility>
@@ -63,7 +64,13 @@ namespace detail
 
         using difference_type = difference_type_t<BidirectionalIterator>;
         using rvalue_type = rvalue_type_t<BidirectionalIterator>;
-        std::vector<rvalue_type> dropped;
+        // std::vector<bool> can't be used here: it does not store
+        // objects that can be referred to
+        conditional_t<
+            std::is_same<rvalue_type, bool>::value,
+            std::deque<rvalue_type>,
+            std::vector<rvalue_type>
+        > dropped;
 
         difference_type num_dropped_in_row = 0;
         auto write = begin;
-- 
2.43.0


From 629ed166b92bdcc8692a63d10b5d1957c0effece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 50/51] fix: sorters and probes with iterators that return
 proxies

Elements moved out of the collection were kept as proxies of elements that were
then overwritten, and results of projections as references to proxies that were
already destroyed: sorting a std::vector<bool> corrupted it.
---
 .../cpp-sort/detail/adaptive_quickselect.h    |  6 ++---
 include/cpp-sort/detail/cartesian_tree_sort.h |  2 +-
 include/cpp-sort/detail/grail_sort.h          |  2 +-
 include/cpp-sort/detail/introselect.h         |  4 +--
 include/cpp-sort/detail/iterator_traits.h     | 25 +++++++++++++++++++
 include/cpp-sort/detail/melsort.h             |  2 +-
 include/cpp-sort/detail/merge_sort.h          |  4 +--
 include/cpp-sort/detail/quick_merge_sort.h    |  2 +-
 include/cpp-sort/detail/quicksort.h           |  4 +--
 include/cpp-sort/detail/slabsort.h            |  8 +++---
 include/cpp-sort/detail/splaysort.h           |  2 +-
 include/cpp-sort/detail/vergesort.h           |  4 +--
 include/cpp-sort/probes/enc.h                 |  2 +-
 include/cpp-sort/probes/osc.h                 |  2 +-
 include/cpp-sort/utility/iter_move.h          |  3 ++-
 15 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..ed0b4de 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,7 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            projected_reference_t<RandomAccessIterator, Projection> pivot_proj = proj(*r);
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +173,7 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            projected_reference_t<RandomAccessIterator, Projection> old_pivot_proj = proj(r[oldPivot]);
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +218,7 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            projected_reference_t<RandomAccessIterator, Projection> pivot_proj = proj(r[0]);
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 440afd6..222b8cd 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,7 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    projected_reference_t<ForwardIterator, Projection> proj_value = proj(*first);
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 06fa6da..51261e2 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,7 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        projected_reference_t<RandomAccessIterator, Projection> midkey_proj = proj(*midkey);
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..4fd00dd 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,7 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            projected_reference_t<ForwardIterator, Projection> pivot1 = proj(*last_1);
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +287,7 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            projected_reference_t<ForwardIterator, Projection> pivot2 = proj(*middle1);
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/iterator_traits.h b/include/cpp-sort/detail/iterator_traits.h
index 72dbad0..7a8c633 100644
--- a/include/cpp-sort/detail/iterator_traits.h
+++ b/include/cpp-sort/detail/iterator_traits.h
@@ -9,6 +9,7 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <iterator>
+#include <type_traits>
 #include <utility>
 #include <cpp-sort/utility/iter_move.h>
 #include "type_traits.h"
@@ -49,6 +50,30 @@ namespace detail
     // Handy addition from time to time
     template<typename Iterator, typename Projection>
     using projected_t = remove_cvref_t<invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>>;
+
+    // Result of the projection of an element: when the iterator returns
+    // a temporary object, an rvalue reference returned by the projection
+    // might not outlive it, so the result has to be a new object
+    template<typename Iterator, typename Projection>
+    using projected_result_t = conditional_t<
+        std::is_rvalue_reference<
+            invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>
+        >::value && not std::is_reference<decltype(*std::declval<Iterator&>())>::value,
+        projected_t<Iterator, Projection>,
+        invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>
+    >;
+
+    // Same as above, to be used to hold the result for longer than an
+    // expression
+    template<typename Iterator, typename Projection>
+    using projected_reference_t = conditional_t<
+        std::is_same<
+            projected_result_t<Iterator, Projection>,
+            invoke_result_t<Projection, decltype(*std::declval<Iterator&>())>
+        >::value,
+        projected_result_t<Iterator, Projection>&&,
+        projected_result_t<Iterator, Projection>
+    >;
 }}
 
 #endif // CPPSORT_DETAIL_ITERATOR_TRAITS_H_
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..46c9ed2 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -147,7 +147,7 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            projected_reference_t<ForwardIterator, Projection> value = proj(*it);
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..a94fae4 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,7 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        projected_reference_t<ForwardIterator, Projection> middle_proj = proj(*middle);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +105,7 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        projected_reference_t<BidirectionalIterator, Projection> middle_proj = proj(*middle);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..191b069 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,7 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        projected_reference_t<ForwardIterator, Projection> mid_value = proj(*middle);
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..724a080 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,7 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        projected_reference_t<ForwardIterator, Projection> pivot1 = proj(*last_1);
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +89,7 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        projected_reference_t<ForwardIterator, Projection> pivot2 = proj(*middle1);
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index 64c0d15..fd53af7 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -113,7 +113,7 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        projected_reference_t<BidirectionalIterator, Projection> pivot = proj(*last_1);
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -153,14 +153,14 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            projected_reference_t<BidirectionalIterator, Projection> value = proj(*it);
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
+                    [&proj](auto& list) -> projected_result_t<BidirectionalIterator, Projection> {
                         return proj(*std::prev(list.end()).base()->it);
                     }
                 );
@@ -171,7 +171,7 @@ namespace detail
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
                     lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
+                    [&proj](auto& list) -> projected_result_t<BidirectionalIterator, Projection> {
                         return proj(*list.begin().base()->it);
                     }
                 );
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..981fd8b 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,7 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                projected_reference_t<ForwardIterator, Projection> value_proj = proj(*it);
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..4a23ad0 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,14 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    projected_reference_t<BidirectionalIterator, Projection> target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    projected_reference_t<BidirectionalIterator, Projection> target = proj(*std::prev(next_it->end));
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..43b07c7 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,7 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    cppsort::detail::projected_reference_t<ForwardIterator, Projection> value = proj(*first);
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index 771b801..9ab3ed7 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,7 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                cppsort::detail::projected_reference_t<ForwardIterator, Projection> value = proj(*it);
 
                 auto current = first;
                 auto next = std::next(first);
diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..7a86756 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -66,7 +66,8 @@ namespace cppsort
         using iter_move_t = cppsort::detail::conditional_t<
             std::is_reference<typename std::iterator_traits<Iterator>::reference>::value,
             std::remove_reference_t<typename std::iterator_traits<Iterator>::reference>&&,
-            std::decay_t<typename std::iterator_traits<Iterator>::reference>
+            // The value has to outlive the proxy that refers to it
+            typename std::iterator_traits<Iterator>::value_type
         >;
     }
 
-- 
2.43.0


From b8d3877c2232f8364bb8bbc02dad3812e4cb7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 51/51] fix: memory for elements of over-aligned types

Temporary buffers, nodes and stacks of elements were allocated with plain
operator new even when the type needs more than its alignment.
---
 include/cpp-sort/detail/fixed_size_list.h  |  6 +-
 include/cpp-sort/detail/immovable_vector.h |  8 +-
 include/cpp-sort/detail/memory.h           | 87 ++++++++++++++++------
 include/cpp-sort/detail/spinsort.h         |  6 +-
 include/cpp-sort/detail/timsort.h          |  8 +-
 5 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 3d99cb3..2b17f52 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -142,8 +142,8 @@ namespace detail
 
             explicit fixed_size_list_node_pool(std::ptrdiff_t capacity):
                 // Allocate enough space to store N nodes
-                buffer_(static_cast<node_type*>(::operator new(capacity * sizeof(node_type))),
-                       operator_deleter(capacity * sizeof(node_type))),
+                buffer_(detail::allocate<node_type>(capacity),
+                        operator_deleter<node_type>(capacity)),
                 first_free_(buffer_.get()),
                 capacity_(capacity)
             {
@@ -239,7 +239,7 @@ namespace detail
             // Data members
 
             // Backing storage
-            std::unique_ptr<node_type, operator_deleter> buffer_;
+            std::unique_ptr<node_type, operator_deleter<node_type>> buffer_;
 
             // First free node of the pool
             list_node_base* first_free_;
diff --git a/include/cpp-sort/detail/immovable_vector.h b/include/cpp-sort/detail/immovable_vector.h
index 5527621..960895e 100644
--- a/include/cpp-sort/detail/immovable_vector.h
+++ b/include/cpp-sort/detail/immovable_vector.h
@@ -48,7 +48,7 @@ namespace detail
             explicit immovable_vector(std::ptrdiff_t n):
                 capacity_(n),
                 memory_(
-                    static_cast<T*>(::operator new(n * sizeof(T)))
+                    detail::allocate<T>(n)
                 ),
                 end_(memory_)
             {}
@@ -62,11 +62,7 @@ namespace detail
                 detail::destroy(memory_, end_);
 
                 // Free the allocated memory
-#ifdef __cpp_sized_deallocation
-                ::operator delete(memory_, capacity_ * sizeof(T));
-#else
-                ::operator delete(memory_);
-#endif
+                detail::deallocate(memory_, capacity_);
             }
 
             ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/memory.h b/include/cpp-sort/detail/memory.h
index baee595..00e28fa 100644
--- a/include/cpp-sort/detail/memory.h
+++ b/include/cpp-sort/detail/memory.h
@@ -61,33 +61,77 @@ namespace detail
     }
 
     ////////////////////////////////////////////////////////////
-    // Deleter for ::operator new(std::size_t)
+    // Allocate and deallocate raw memory for objects of a given
+    // type, taking the alignment of over-aligned types into
+    // account when the standard library allows it
 
-    struct operator_deleter
+    template<typename T>
+    auto allocate(std::ptrdiff_t count)
+        -> T*
     {
-        operator_deleter() = default;
-
-#ifdef __cpp_sized_deallocation
-        std::size_t size = 0;
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(count * sizeof(T), std::align_val_t(alignof(T))));
+        }
+#endif
+        return static_cast<T*>(::operator new(count * sizeof(T)));
+    }
 
-        constexpr explicit operator_deleter(std::size_t size) noexcept:
-            size(size)
-        {}
+    template<typename T>
+    auto allocate(std::ptrdiff_t count, const std::nothrow_t& tag) noexcept
+        -> T*
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(count * sizeof(T), std::align_val_t(alignof(T)), tag));
+        }
+#endif
+        return static_cast<T*>(::operator new(count * sizeof(T), tag));
+    }
 
-        inline auto operator()(void* pointer) const noexcept
-            -> void
-        {
-            ::operator delete(pointer, size);
+    template<typename T>
+    auto deallocate(T* ptr, std::ptrdiff_t count) noexcept
+        -> void
+    {
+#ifdef __cpp_sized_deallocation
+#   ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
+            return;
         }
+#   endif
+        ::operator delete(ptr, count * sizeof(T));
 #else
-        constexpr explicit operator_deleter(std::size_t) noexcept {}
+        (void)count;
+#   ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(ptr, std::align_val_t(alignof(T)));
+            return;
+        }
+#   endif
+        ::operator delete(ptr);
+#endif
+    }
+
+    ////////////////////////////////////////////////////////////
+    // Deleter for memory allocated with allocate<T>(count)
 
-        inline auto operator()(void* pointer) const noexcept
+    template<typename T>
+    struct operator_deleter
+    {
+        std::ptrdiff_t count = 0;
+
+        operator_deleter() = default;
+
+        constexpr explicit operator_deleter(std::ptrdiff_t count) noexcept:
+            count(count)
+        {}
+
+        auto operator()(T* pointer) const noexcept
             -> void
         {
-            ::operator delete(pointer);
+            detail::deallocate(pointer, count);
         }
-#endif
     };
 
     ////////////////////////////////////////////////////////////
@@ -165,7 +209,7 @@ namespace detail
         // Try to gradually allocate less memory until we get a valid buffer
         // or until the amount of memory to allocate reaches 0
         while (count > min_count) {
-            res.first = static_cast<T*>(::operator new(count * sizeof(T), std::nothrow));
+            res.first = detail::allocate<T>(count, std::nothrow);
             if (res.first) {
                 res.second = count;
                 break;
@@ -179,12 +223,7 @@ namespace detail
     auto return_temporary_buffer(T* ptr, std::size_t count) noexcept
         -> void
     {
-#ifdef __cpp_sized_deallocation
-        ::operator delete(ptr, count * sizeof(T));
-#else
-        (void)count;
-        ::operator delete(ptr);
-#endif
+        detail::deallocate(ptr, static_cast<std::ptrdiff_t>(count));
     }
 
     ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..306b2fe 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -329,9 +329,9 @@ namespace detail
 
                     // Buffer used by the merge operations
                     auto buffer_size = nelem_1;
-                    std::unique_ptr<rvalue_type, operator_deleter> buffer(
-                        static_cast<rvalue_type*>(::operator new(buffer_size * sizeof(rvalue_type))),
-                        operator_deleter(buffer_size * sizeof(rvalue_type))
+                    std::unique_ptr<rvalue_type, operator_deleter<rvalue_type>> buffer(
+                        detail::allocate<rvalue_type>(buffer_size),
+                        operator_deleter<rvalue_type>(buffer_size)
                     );
                     range_buf range_aux(buffer.get(), (buffer.get() + buffer_size));
 
diff --git a/include/cpp-sort/detail/timsort.h b/include/cpp-sort/detail/timsort.h
index 790cc45..d4ae21e 100644
--- a/include/cpp-sort/detail/timsort.h
+++ b/include/cpp-sort/detail/timsort.h
@@ -89,7 +89,7 @@ namespace detail
         difference_type minGallop_ = min_gallop;
 
         // Buffer used for merges
-        std::unique_ptr<rvalue_type, operator_deleter> buffer;
+        std::unique_ptr<rvalue_type, operator_deleter<rvalue_type>> buffer;
         std::ptrdiff_t buffer_size = 0;
 
         // Silence GCC -Winline warning
@@ -420,10 +420,8 @@ namespace detail
                 // easily avoidable out-of-memory errors and make sized
                 // deallocation work properly
                 buffer.reset(nullptr);
-                buffer.get_deleter() = operator_deleter(new_size * sizeof(rvalue_type));
-                buffer.reset(static_cast<rvalue_type*>(
-                    ::operator new(new_size * sizeof(rvalue_type))
-                ));
+                buffer.get_deleter() = operator_deleter<rvalue_type>(new_size);
+                buffer.reset(detail::allocate<rvalue_type>(new_size));
                 buffer_size = new_size;
             }
         }
-- 
2.43.0

