From c4dc0791b3d236ce5bbeebf499631f4e548b885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 01/61] fix: spin_sorter no longer reads past the end of the
 range when merging uneven halves

half_inplace_merge blindly performs min_len steps, which is only valid when both
ranges have at least that many elements. merge_half passed the size of the first
buffer, but spinsort may call it with a second range one element smaller, in which
case *last was compared, and possibly moved from.
---
 include/cpp-sort/detail/boost_common/util/merge.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..3be9874 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -130,8 +130,15 @@ namespace util
             }
         }
 
+        // The second buffer can be smaller than the first one, make
+        // sure that half_inplace_merge does not read past its end
+        using difference_type = std::common_type_t<
+            difference_type_t<RandomAccessIterator1>,
+            difference_type_t<RandomAccessIterator2>
+        >;
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            std::min<difference_type>(end_buf1 - buf1, end_buf2 - buf2),
+                                            compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From 2e71ab78140afee7b6906816f66a9e95dcf1ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 02/61] fix: verge_sorter correctly merges a run of size 1 that
 is not the first run

When merging a run of size 1 with the next one, merge_runs rotated from the beginning
of the whole collection instead of the beginning of the run, shuffling the runs that
had already been merged.
---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From bc8dee9fd73b6c7f650b5203f94d41da0a39141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 03/61] fix: verge_adapter and verge_sorter accept a pair of
 bidirectional iterators

The iterator overload computed the size with last - first, which does not compile
for bidirectional iterators although they are documented to be supported.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..cd0bfcb 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto size = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), size,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From 3f8179650f71c63352dacdabb1c6bf560d0f069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 04/61] fix: spin_sorter reports that it is stable

spinsort is a stable algorithm and documented as such, but is_always_stable (and thus
is_stable) answered false for it.
---
 include/cpp-sort/sorters/spin_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/sorters/spin_sorter.h b/include/cpp-sort/sorters/spin_sorter.h
index 0f4232c..e3b2364 100644
--- a/include/cpp-sort/sorters/spin_sorter.h
+++ b/include/cpp-sort/sorters/spin_sorter.h
@@ -57,7 +57,7 @@ namespace cppsort
             // Sorter traits
 
             using iterator_category = std::random_access_iterator_tag;
-            using is_always_stable = std::false_type;
+            using is_always_stable = std::true_type;
         };
     }
 
-- 
2.43.0


From 4c19d859d5e50f4a943db109e8e14fdcee361c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 05/61] fix: wiki_sorter no longer constructs and destroys
 objects over the live ones of its buffer

Merging two blocks through the cache used buffered_inplace_merge, which considers that it
is given raw memory: it constructed objects over those that the buffer provider had already
default-constructed, then destroyed them, and the buffer destroyed them a second time.
---
 include/cpp-sort/detail/wiki_sort.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..a6cb64b 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -491,9 +491,13 @@ namespace detail
                                 // the two ranges are in reverse order, so a simple rotation should fix it
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
-                                // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // these two ranges weren't already in order, so we need to merge them;
+                                // the elements of the cache are already alive, so they have to be assigned to
+                                detail::move(A.start, A.end, cache_begin);
+                                half_inplace_merge(cache_begin, cache_begin + A.length(),
+                                                   B.start, B.end, A.start,
+                                                   (std::min)(A.length(), B.length()),
+                                                   compare, projection);
                             }
                         }
                     }
-- 
2.43.0


From 210f1206ab756ca303578eb9eef9e5aeba906cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 06/61] fix: merging fixed_size_lists keeps both lists valid
 when a comparison throws

---
 include/cpp-sort/detail/fixed_size_list.h | 45 ++++++-----------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..33c7cbd 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -668,25 +668,20 @@ namespace detail
                         do {
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
-                        fast_splice_(first, insert_begin, other_it);
+                        // Both lists have to remain valid at all times
+                        // since the next comparison might throw
+                        splice(first, other, insert_begin, other_it);
                     } else {
                         ++first;
                     }
 
                     if (first == last) {
-                        fast_splice_(last, other_it, other_end);
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
-                        other.sentinel_node_.next = &other.sentinel_node_;
-                        other.sentinel_node_.prev = &other.sentinel_node_;
+                        if (other_it != other_end) {
+                            splice(last, other, other_it, other_end);
+                        }
                         return;
                     }
                 } while (other_it != other_end);
-
-                // Reset the other list's sentinel node,
-                // fast_splice_ does no do it
-                other.sentinel_node_.next = &other.sentinel_node_;
-                other.sentinel_node_.prev = &other.sentinel_node_;
             }
 
             template<typename Compare, typename Projection>
@@ -733,6 +728,9 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.base()->prev->next = insert_first.base();
                         insert_last.base()->next = first.base();
+                        // The inserted nodes don't belong to the other list
+                        // anymore, the next comparison might throw
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
@@ -740,16 +738,14 @@ namespace detail
                     if (first == last) {
                         last.base()->prev->next = other_it.base();
                         other_end.base()->prev->next = last.base();
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
+                        // Reset the other list's sentinel node
                         other.sentinel_node_.next = &other.sentinel_node_;
                         other.sentinel_node_.prev = &other.sentinel_node_;
                         return;
                     }
                 }
 
-                // Reset the other list's sentinel node,
-                // fast_splice_ does no do it
+                // Reset the other list's sentinel node
                 other.sentinel_node_.next = &other.sentinel_node_;
                 other.sentinel_node_.prev = &other.sentinel_node_;
             }
@@ -824,25 +820,6 @@ namespace detail
                 node->next->prev = node;
             }
 
-            auto fast_splice_(iterator pos, iterator first, iterator last) noexcept
-                -> void
-            {
-                CPPSORT_ASSERT(first.base() != last.base());
-
-                // This function is like splice(), but it doesn't relink
-                // nodes in the other list: when merging another list into
-                // the current one, we never use the relinked pointers in
-                // the other list, so merge() can just skip relinking them
-                // altogether and just reset the sentinel node at the end
-                // of the operation instead
-
-                // Add the range of elements to this list
-                pos.base()->prev->next = first.base();
-                first.base()->prev = pos.base()->prev;
-                pos.base()->prev = last.base()->prev;
-                last.base()->prev->next = pos.base();
-            }
-
             ////////////////////////////////////////////////////////////
             // Data members
 
-- 
2.43.0


From f742ea307ffc436a6c1cd4ff2319be3b76f57e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 07/61] fix: slab_sorter destroys the elements it moved to its
 lists when a move throws

---
 include/cpp-sort/detail/slabsort.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..b7409fc 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,12 +199,23 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
-                auto value_it = node->it;
-                detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+            auto it = list.begin();
+            try {
+                for (auto end = list.end() ; it != end ; ++it) {
+                    auto node = it.base();
+                    auto value_it = node->it;
+                    detail::destroy_at(&node->it);
+                    ::new(&node->value) rvalue_type(iter_move(value_it));
+                }
+            } catch (...) {
+                // Destroy the values already moved to the list and make every
+                // node hold an iterator again for the list to destroy it
+                for (auto pos = list.begin() ; pos != it ; ++pos) {
+                    detail::destroy_at(&pos.base()->value);
+                    ::new(&pos.base()->it) BidirectionalIterator(first);
+                }
+                ::new(&it.base()->it) BidirectionalIterator(first);
+                throw;
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
-- 
2.43.0


From 0ccc6e46e0d2fc72597522b185e330c119615fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 08/61] fix: merging forward ranges with little memory no
 longer reads past the end of the second one

---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From c6907ba4718c46ae6f8c5248e5ba8f9da17c5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 09/61] fix: branchless swap_if keeps both values when floating
 point numbers are equal

std::max(dx, y) and std::min(dx, y) return their first argument when both
are equivalent: exchanging 0.0 and -0.0 produced the same zero twice, so
sorting networks, pdq_sorter and others lost signed zeros.
---
 include/cpp-sort/detail/swap_if.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..7ea2e4d 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -61,7 +61,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -79,7 +79,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From 2da652dd5c2aefe918421025c86d500a83d74977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 10/61] fix: move weight of low_moves_sorter<2> in the
 documentation

A swap performs three moves, and one of the two permutations needs it.
---
 docs/Fixed-size-sorters.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Fixed-size-sorters.md b/docs/Fixed-size-sorters.md
index dd9ce78..d4c65f1 100644
--- a/docs/Fixed-size-sorters.md
+++ b/docs/Fixed-size-sorters.md
@@ -60,7 +60,7 @@ Size | Move weight
 ---- | -----------
 0 | 0
 1 | 0
-2 | 2
+2 | 3
 3 | 17
 4 | 122
 5 | 898
-- 
2.43.0


From 55f22e72ec169bea70ea53356f98ccd053b1c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 11/61] fix: the domain of sorting_network_sorter includes
 sizes 33 to 64

Specializations exist for these sizes since 1.15.0, but fixed_sorter_traits
still ended the domain at 32: small_array_adapter ignored them.
---
 include/cpp-sort/fixed/sorting_network_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/fixed/sorting_network_sorter.h b/include/cpp-sort/fixed/sorting_network_sorter.h
index 191ac40..d4cf5dc 100644
--- a/include/cpp-sort/fixed/sorting_network_sorter.h
+++ b/include/cpp-sort/fixed/sorting_network_sorter.h
@@ -78,7 +78,7 @@ namespace cppsort
     template<>
     struct fixed_sorter_traits<sorting_network_sorter>
     {
-        using domain = std::make_index_sequence<33>;
+        using domain = std::make_index_sequence<65>;
         using iterator_category = std::random_access_iterator_tag;
         using is_always_stable = std::false_type;
     };
-- 
2.43.0


From cdfd71ba84151ad68ca490ce39dadea1a4735668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 12/61] fix: ska_sorter sorts signed char and wchar_t values
 according to their sign

---
 include/cpp-sort/detail/ska_sort.h | 41 +++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..35d5630 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <functional>
 #include <limits>
+#include <string>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -56,7 +57,8 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        return static_cast<unsigned char>(c)
+             + (std::numeric_limits<char>::is_signed ? 128 : 0);
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +76,11 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        // wchar_t might be signed or unsigned depending on the platform
+        return static_cast<std::uint32_t>(
+            static_cast<std::int64_t>(c)
+            - static_cast<std::int64_t>((std::numeric_limits<wchar_t>::min)())
+        );
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +446,38 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    // std::char_traits<char> compares characters as if they were
+    // of type unsigned char, no matter whether char is signed
+
+    struct CharTraitsSubKey:
+        SubKey<unsigned char>
+    {
+        static auto sub_key(char value, void*)
+            -> unsigned char
+        {
+            return static_cast<unsigned char>(value);
+        }
+    };
+
+    template<typename T, typename Enable=void>
+    struct ListElementBaseSubKey
+    {
+        using type = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+    };
+
+    template<typename T>
+    struct ListElementBaseSubKey<T, detail::enable_if_t<
+        std::is_same<typename T::traits_type, std::char_traits<char>>::value
+    >>
+    {
+        using type = CharTraitsSubKey;
+    };
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        ListElementBaseSubKey<T>::type
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = typename ListElementBaseSubKey<T>::type;
         using next = ListElementSubKey;
 
         template<typename U>
-- 
2.43.0


From 2be46bbaf094576fff70dac53655e6420aea81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 13/61] fix: ska_sorter no longer reads past the end of a
 collection of lists of bool

---
 include/cpp-sort/detail/ska_sort.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 35d5630..854ef98 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -846,8 +846,12 @@ namespace detail
                 return not CurrentSubKey::sub_key(proj(a), sort_data);
             });
             if (next_sort) {
-                next_sort(begin, middle, middle - begin, projection, sort_data);
-                next_sort(middle, end, end - middle, projection, sort_data);
+                if (begin != middle) {
+                    next_sort(begin, middle, middle - begin, projection, sort_data);
+                }
+                if (middle != end) {
+                    next_sort(middle, end, end - middle, projection, sort_data);
+                }
             }
         }
     };
-- 
2.43.0


From 582ea3311296d5f059dfa4034b624f827c4e07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 14/61] fix: ska_sorter gives signed zeros the same key

---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 854ef98..3f417c8 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -123,7 +123,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // -0.0 and +0.0 compare equal, they need to have the same key
+        auto u = memcpy_cast<std::uint32_t>(f == 0.0f ? 0.0f : f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -131,7 +132,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // -0.0 and +0.0 compare equal, they need to have the same key
+        auto u = memcpy_cast<std::uint64_t>(f == 0.0 ? 0.0 : f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From b7c3ce4dd91029fc36a510ac2b5480120a9a4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 15/61] fix: ska_sorter takes every member of pairs and tuples
 in lists into account

---
 include/cpp-sort/detail/ska_sort.h | 84 +++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 14 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 3f417c8..7c17639 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -475,12 +475,13 @@ namespace detail
         using type = CharTraitsSubKey;
     };
 
-    template<typename CurrentSubKey, typename T>
+    template<typename CurrentSubKey, typename T,
+             typename ElementSubKey=typename ListElementBaseSubKey<T>::type>
     struct ListElementSubKey:
-        ListElementBaseSubKey<T>::type
+        ElementSubKey
     {
-        using base = typename ListElementBaseSubKey<T>::type;
-        using next = ListElementSubKey;
+        using base = ElementSubKey;
+        using next = ListElementSubKey<CurrentSubKey, T, typename ElementSubKey::next>;
 
         template<typename U>
         static auto sub_key(U&& value, void* sort_data)
@@ -492,6 +493,31 @@ namespace detail
         }
     };
 
+    // Whether two list elements have the same sub-keys
+
+    template<typename ElementSubKey>
+    struct SameSubKeys
+    {
+        template<typename T>
+        static auto call(const T& lhs, const T& rhs, void* sort_data)
+            -> bool
+        {
+            return ElementSubKey::sub_key(lhs, sort_data) == ElementSubKey::sub_key(rhs, sort_data)
+                && SameSubKeys<typename ElementSubKey::next>::call(lhs, rhs, sort_data);
+        }
+    };
+
+    template<>
+    struct SameSubKeys<SubKey<void>>
+    {
+        template<typename T>
+        static auto call(const T&, const T&, void*)
+            -> bool
+        {
+            return true;
+        }
+    };
+
     template<typename T>
     struct ListSubKey
     {
@@ -727,9 +753,9 @@ namespace detail
         }
     };
 
-    template<typename RandomAccessIterator, typename Projection, typename ElementKey>
+    template<typename RandomAccessIterator, typename Projection, typename SameElement>
     auto CommonPrefix(RandomAccessIterator begin, RandomAccessIterator end,
-                      std::size_t start_index, Projection projection, ElementKey&& element_key)
+                      std::size_t start_index, Projection projection, SameElement&& same_element)
         -> std::size_t
     {
         auto proj = utility::as_function(projection);
@@ -749,11 +775,11 @@ namespace detail
                     return start_index;
                 }
             }
-            if (element_key(largest_match_list[start_index]) != element_key(current_list[start_index])) {
+            if (not same_element(largest_match_list[start_index], current_list[start_index])) {
                 return start_index;
             }
             for (std::size_t i = start_index + 1 ; i < largest_match ; ++i) {
-                if (element_key(largest_match_list[i]) != element_key(current_list[i])) {
+                if (not same_element(largest_match_list[i], current_list[i])) {
                     largest_match = i;
                     break;
                 }
@@ -779,10 +805,10 @@ namespace detail
             auto current_key = [&](auto&& elem) -> decltype(auto) {
                 return CurrentSubKey::sub_key(proj(elem), next_sort_data);
             };
-            auto element_key = [&](auto&& elem) -> decltype(auto) {
-                return ElementSubKey::base::sub_key(elem, sort_data);
+            auto same_element = [&](const auto& lhs, const auto& rhs) {
+                return SameSubKeys<typename ElementSubKey::base>::call(lhs, rhs, sort_data);
             };
-            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, current_key, element_key);
+            sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, current_key, same_element);
             auto end_of_shorter_ones = detail::partition(begin, end, [&](auto&& elem) {
                 return current_key(elem).size() <= current_index;
             });
@@ -793,12 +819,42 @@ namespace detail
             }
             std::ptrdiff_t num_elements = end - end_of_shorter_ones;
             if (not StdSortIfLessThanThreshold<StdSortThreshold>(end_of_shorter_ones, end, num_elements, projection)) {
+                ElementSorter<ElementSubKey>::sort(end_of_shorter_ones, end, num_elements, projection, sort_data);
+            }
+        }
+
+        // Sort on the sub-keys of the current element one after the other,
+        // then on the next element
+
+        template<typename Key, typename Next=typename Key::base::next>
+        struct ElementSorter
+        {
+            template<typename RandomAccessIterator, typename Projection>
+            static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                             std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+                -> void
+            {
+                using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
+                SortType sort_next_key = static_cast<SortType>(&ElementSorter<typename Key::next>::sort);
+                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, Key>::sort(begin, end, num_elements,
+                                                                                      projection, sort_next_key, sort_data);
+            }
+        };
+
+        template<typename Key>
+        struct ElementSorter<Key, SubKey<void>>
+        {
+            template<typename RandomAccessIterator, typename Projection>
+            static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                             std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+                -> void
+            {
                 using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
                 SortType sort_next_element = static_cast<SortType>(&sort_from_recursion);
-                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, ElementSubKey>::sort(end_of_shorter_ones, end, num_elements,
-                                                                                                projection, sort_next_element, sort_data);
+                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, Key>::sort(begin, end, num_elements,
+                                                                                      projection, sort_next_element, sort_data);
             }
-        }
+        };
 
         template<typename RandomAccessIterator, typename Projection>
         static auto sort_from_recursion(RandomAccessIterator begin, RandomAccessIterator end,
-- 
2.43.0


From 480f948193175e7a18bd91c6a8676b551bac6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 16/61] fix: counting_sorter sorts collections of bool

---
 include/cpp-sort/detail/counting_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..3f80ee2 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -10,7 +10,6 @@
 ////////////////////////////////////////////////////////////
 #include <algorithm>
 #include <functional>
-#include <iterator>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
@@ -24,6 +23,7 @@ namespace detail
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
@@ -41,8 +41,8 @@ namespace detail
             ++counts[*it - min];
         }
 
-        for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+        for (difference_type n = 0; n < value_range; ++n) {
+            first = std::fill_n(first, counts[n], static_cast<value_type>(min + n));
         }
     }
 
@@ -51,6 +51,7 @@ namespace detail
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
@@ -68,9 +69,8 @@ namespace detail
             ++counts[*it - min];
         }
 
-        for (auto rit = counts.end(); rit != counts.begin(); --rit) {
-            auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+        for (difference_type n = value_range; n > 0; --n) {
+            first = std::fill_n(first, counts[n - 1], static_cast<value_type>(min + (n - 1)));
         }
     }
 }}
-- 
2.43.0


From 817c5f14d4798708cf0d714ec722c30fb97231b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 17/61] fix: counting_sorter throws when the counts for a range
 of values can not be allocated

---
 include/cpp-sort/detail/counting_sort.h | 37 ++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 3f80ee2..64c7168 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,7 +9,11 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
 #include <functional>
+#include <limits>
+#include <new>
+#include <type_traits>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
@@ -18,6 +22,31 @@ namespace cppsort
 {
 namespace detail
 {
+    // Distance between min and value, computed without overflow
+    template<typename Integer>
+    auto counting_distance(Integer min, Integer value)
+    {
+        using common_t = std::common_type_t<std::ptrdiff_t, Integer>;
+        return static_cast<common_t>(value) - static_cast<common_t>(min);
+    }
+
+    // Number of values between min and max, both included
+    template<typename Difference, typename Integer>
+    auto counting_range(Integer min, Integer max)
+        -> Difference
+    {
+        using common_t = std::common_type_t<std::ptrdiff_t, Integer>;
+        constexpr common_t max_allocation = (std::numeric_limits<std::ptrdiff_t>::max)() / sizeof(Difference);
+        constexpr common_t max_difference = (std::numeric_limits<Difference>::max)();
+
+        // The first condition guards counting_distance against overflow
+        if (static_cast<common_t>(max) / 2 - static_cast<common_t>(min) / 2 >= max_allocation / 2 - 1 ||
+            counting_distance(min, max) >= max_difference) {
+            throw std::bad_array_new_length();
+        }
+        return static_cast<Difference>(counting_distance(min, max) + 1);
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
@@ -30,7 +59,7 @@ namespace detail
 
         auto min = *info.min;
         auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -38,7 +67,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<difference_type>(counting_distance(min, *it))];
         }
 
         for (difference_type n = 0; n < value_range; ++n) {
@@ -58,7 +87,7 @@ namespace detail
 
         auto min = *info.max;
         auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -66,7 +95,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<difference_type>(counting_distance(min, *it))];
         }
 
         for (difference_type n = value_range; n > 0; --n) {
-- 
2.43.0


From 884bb8e0a2539df3ee538343e371ee34eddf76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 18/61] fix: grail_sorter no longer loses elements with a
 buffer of size 1

---
 include/cpp-sort/detail/grail_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..f38f138 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -477,7 +477,7 @@ namespace grail
         }
 
         difference_type h;
-        if (kbuf) {
+        if (kbuf >= 2) { // pairs of elements are moved below
             detail::move(first - kbuf, first, extbuf);
             for (difference_type m = 1 ; m < size ; m += 2) {
                 difference_type u = 0;
-- 
2.43.0


From 3f9f67295edf015880874ff6491d91db85746a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 19/61] fix: buffered sorters with dynamic_buffer<log> can sort
 empty collections

---
 include/cpp-sort/utility/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/buffer.h b/include/cpp-sort/utility/buffer.h
index a88c73d..f5c0b88 100644
--- a/include/cpp-sort/utility/buffer.h
+++ b/include/cpp-sort/utility/buffer.h
@@ -253,7 +253,9 @@ namespace utility
         {
             explicit buffer(std::size_t size):
                 detail::dynamic_buffer_impl<T>(
-                    static_cast<std::size_t>(SizePolicy{}(size))
+                    // An empty collection never needs memory, and not all
+                    // size policies can handle 0 (the logarithm can't)
+                    size == 0 ? 0 : static_cast<std::size_t>(SizePolicy{}(size))
                 )
             {}
         };
-- 
2.43.0


From 073fbe4c47608f3695bee0bec3b61c360920f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 20/61] fix: spread_sorter no longer overflows when computing
 the range of signed keys

---
 include/cpp-sort/detail/spreadsort/detail/float_sort.h   | 6 +++---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..ba5986f 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -143,7 +143,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -209,7 +209,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..563167f 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0)));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From 29c57c4f755f279d5eac6493dfd0adb36bc0ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 21/61] fix: float_spread_sorter correctly sorts negative
 double values that are close to each other

---
 include/cpp-sort/detail/spreadsort/detail/float_sort.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index ba5986f..99cc77a 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -289,11 +289,10 @@ namespace detail
         ++current;
       }
       //The index of the first positive bin
-      //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      //If all bins are negative, -div_min might not fit into an unsigned
+      unsigned first_positive = 0;
+      if (div_min < 0)
+        first_positive = (div_max < 0) ? bin_count : unsigned(-div_min);
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0


From b1c247df5d9cb264e4b5dcf71381a61c81e2cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 22/61] fix: counting_sorter does not refer to the elements it
 overwrites through proxy references

---
 include/cpp-sort/detail/counting_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 64c7168..baaa7e5 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -57,8 +57,8 @@ namespace detail
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
 
-        auto min = *info.min;
-        auto max = *info.max;
+        value_type min = *info.min;
+        value_type max = *info.max;
         auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
@@ -67,7 +67,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[static_cast<difference_type>(counting_distance(min, *it))];
+            ++counts[static_cast<difference_type>(counting_distance<value_type>(min, *it))];
         }
 
         for (difference_type n = 0; n < value_range; ++n) {
@@ -85,8 +85,8 @@ namespace detail
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
 
-        auto min = *info.max;
-        auto max = *info.min;
+        value_type min = *info.max;
+        value_type max = *info.min;
         auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
@@ -95,7 +95,7 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[static_cast<difference_type>(counting_distance(min, *it))];
+            ++counts[static_cast<difference_type>(counting_distance<value_type>(min, *it))];
         }
 
         for (difference_type n = value_range; n > 0; --n) {
-- 
2.43.0


From a3f546814310fec9dd0b9aee74025f70323c1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 23/61] fix: hybrid_adapter: forward stateful sorters when
 unnesting hybrid adapters

---
 include/cpp-sort/adapters/hybrid_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..cd29595 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -364,9 +364,9 @@ namespace cppsort
             template<typename... Args, std::size_t... Indices>
             static constexpr auto get_sorters_from_impl(detail::hybrid_adapter_impl<Args...>&& value,
                                                         std::index_sequence<Indices...>)
-                -> decltype(auto)
+                -> std::tuple<Args&&...>
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::tuple<Args&&...>(static_cast<Args&&>(value.template get<Indices>())...);
             }
 
             template<typename... Args>
-- 
2.43.0


From 6015e19c6ca532d19d488ac5ca9d18d6f22cfa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 24/61] fix: container_aware_adapter: accept pairs of iterators
 in every call form

---
 .../adapters/container_aware_adapter.h        | 50 +++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index d53b5a4..3d68a9a 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -330,6 +330,56 @@ namespace cppsort
             {
                 return this->get()(iterable, std::move(compare), std::move(projection));
             }
+
+            // A pair of iterators does not hold enough information to
+            // call dedicated algorithms: use the raw adapted sorter
+
+            template<
+                bool Stability = false,
+                typename Iterator
+            >
+            auto operator()(Iterator first, Iterator last) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator)>,
+                    decltype(this->get()(std::move(first), std::move(last)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Function
+            >
+            auto operator()(Iterator first, Iterator last, Function function) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Function)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(function)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(function));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Compare,
+                typename Projection
+            >
+            auto operator()(Iterator first, Iterator last, Compare compare, Projection projection) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+                    decltype(this->get()(std::move(first), std::move(last),
+                                         std::move(compare), std::move(projection)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last),
+                                   std::move(compare), std::move(projection));
+            }
         };
     }
 
-- 
2.43.0


From c0162b5095c959a3d2db9bfbb947caccc0764cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 25/61] fix: small_array_adapter: soft error for arrays whose
 size is not in the domain

---
 .../cpp-sort/adapters/small_array_adapter.h   | 20 +++++++++----------
 .../cpp-sort/detail/schwartz_small_array.h    | 20 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/cpp-sort/adapters/small_array_adapter.h b/include/cpp-sort/adapters/small_array_adapter.h
index ccebe04..5239491 100644
--- a/include/cpp-sort/adapters/small_array_adapter.h
+++ b/include/cpp-sort/adapters/small_array_adapter.h
@@ -65,22 +65,22 @@ namespace cppsort
             detail::all(std::is_empty<FixedSizeSorter<Indices>>::value...)
         >
     {
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T, std::size_t N, typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(std::array<T, N>& array, Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
 
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T, std::size_t N, typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(T (&array)[N], Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
diff --git a/include/cpp-sort/detail/schwartz_small_array.h b/include/cpp-sort/detail/schwartz_small_array.h
index 1ce9942..3483434 100644
--- a/include/cpp-sort/detail/schwartz_small_array.h
+++ b/include/cpp-sort/detail/schwartz_small_array.h
@@ -32,23 +32,23 @@ namespace cppsort
             detail::all(std::is_empty<FixedSizeSorter<Indices>>::value...)
         >
     {
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T, std::size_t N, typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(std::array<T, N>& array, Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
         {
             using sorter = schwartz_adapter<FixedSizeSorter<N>>;
             return sorter{}(array, std::forward<Args>(args)...);
         }
 
-        template<typename T, std::size_t N, typename... Args>
+        template<
+            typename T, std::size_t N, typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(T (&array)[N], Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
         {
             using sorter = schwartz_adapter<FixedSizeSorter<N>>;
             return sorter{}(array, std::forward<Args>(args)...);
-- 
2.43.0


From 451ad5c6f3ab11dedf40c5c2c6d7cd2eb9bddc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 26/61] fix: self_sort_adapter: hand lists sorted with a
 projection to the adapted sorter

---
 include/cpp-sort/adapters/self_sort_adapter.h | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..a1e2316 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -40,6 +40,26 @@ namespace cppsort
         constexpr bool has_sort_method
             = is_detected_v<has_sort_method_t, Iterable, Args...>;
 
+        // The sort method of the standard library lists is unconstrained
+        // and treats any function as a comparison: leave projections to
+        // the adapted sorter
+
+        template<
+            typename T,
+            typename Allocator,
+            typename Function
+        >
+        constexpr bool has_sort_method<std::forward_list<T, Allocator>&, Function>
+            = not is_projection_v<remove_cvref_t<Function>, std::forward_list<T, Allocator>&>;
+
+        template<
+            typename T,
+            typename Allocator,
+            typename Function
+        >
+        constexpr bool has_sort_method<std::list<T, Allocator>&, Function>
+            = not is_projection_v<remove_cvref_t<Function>, std::list<T, Allocator>&>;
+
         template<
             typename Iterable,
             typename... Args
-- 
2.43.0


From 615b3e4c0016537b4fc5792eb2bbc4d526b410ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 27/61] fix: container_aware_adapter<merge_sorter>: sort lists
 stably, as documented

---
 .../detail/container_aware/merge_sort.h       | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..cae47ab 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -33,17 +33,16 @@ namespace cppsort
         {
             if (collection.size() < 2) return;
 
-            // Extract left part
-            auto first = collection.begin();
-            auto middle = std::next(first, collection.size() / 2);
-            std::list<Args...> left(collection.get_allocator());
-            left.splice(left.begin(), collection, first, middle);
+            // Extract right part
+            auto middle = std::next(collection.begin(), collection.size() / 2);
+            std::list<Args...> right(collection.get_allocator());
+            right.splice(right.begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            list_merge_sort(right, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -54,17 +53,16 @@ namespace cppsort
         {
             if (size < 2) return;
 
-            // Extract left part
-            auto first = collection.before_begin();
-            auto middle = std::next(first, size / 2 + 1);
-            std::forward_list<Args...> left(collection.get_allocator());
-            left.splice_after(left.before_begin(), collection, first, middle);
+            // Extract right part
+            auto before_middle = std::next(collection.before_begin(), size / 2);
+            std::forward_list<Args...> right(collection.get_allocator());
+            right.splice_after(right.before_begin(), collection, before_middle, collection.end());
 
             // Recursively sort, then merge
-            flist_merge_sort(left, size / 2, compare, projection);
-            flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            flist_merge_sort(collection, size / 2, compare, projection);
+            flist_merge_sort(right, size - size / 2, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
     }
 
-- 
2.43.0


From c549b53ba6c2eef19c19e5d578bbe9fd6a57d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 28/61] fix: container_aware_adapter<mel_sorter>: use the
 allocator of the list

---
 include/cpp-sort/detail/container_aware/mel_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..005be5d 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -41,7 +41,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -68,7 +68,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -115,8 +115,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& alloc):
+                    list(alloc),
                     last(list.begin())
                 {}
 
@@ -126,7 +126,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -158,7 +158,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
-- 
2.43.0


From cbf774c7d6b106be1214ed582975e16c4b0665cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 29/61] fix: association: assignment is noexcept only when the
 one of the elements is

---
 include/cpp-sort/detail/associate_iterator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..20dcc3b 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -64,7 +64,9 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
+            noexcept(noexcept(*it = std::move(*other.it)) &&
+                     std::is_nothrow_move_assignable<Data>::value)
             -> association&
         {
             *it = std::move(*other.it);
-- 
2.43.0


From c7dbaac24a96f7b373ddf9c18849468292f820e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 30/61] fix: cartesian_tree_sort: accept projections without a
 const call operator

---
 include/cpp-sort/detail/cartesian_tree_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..440afd6 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -128,7 +128,8 @@ namespace detail
         pq.push_back(tree.root());
 
         auto&& comp = cppsort::flip(compare);
-        auto proj_value = [proj=utility::as_function(projection)](auto* node) -> decltype(auto) {
+        auto&& proj = utility::as_function(projection);
+        auto proj_value = [&proj](auto* node) -> decltype(auto) {
             return proj(static_cast<node_type*>(node)->value);
         };
 
-- 
2.43.0


From c3564296ca46617d3eeb4c54078e2d0a88d3c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 31/61] fix: probe::block: sort the iterators stably

---
 include/cpp-sort/probes/block.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..b8a3a99 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,9 +51,11 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
+            // Sort the iterators on pointed values, the sort has to be stable:
+            // equivalent elements that follow each other in the collection
+            // also have to follow each other in the sorted sequence
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
                 compare, utility::indirect{} | projection
             );
 
-- 
2.43.0


From dac8d41a18bde98e3794cb375e2eaae48c3b5294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 32/61] fix: weak and partial order comparators: make floating
 point calls unambiguous

---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0d5216e 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
             -> decltype(cppsort::weak_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..e7e939b 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
             -> decltype(cppsort::weak_less(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..72b6ac3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
             -> decltype(cppsort::total_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..a24d77f 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
             -> decltype(cppsort::total_less(lhs, rhs))
-- 
2.43.0


From c8b927e0ae7526fc4a450de33a07b895f39beac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 33/61] fix: natural_less: stop at the end of the numbers,
 handle zeros

---
 include/cpp-sort/comparators/natural_less.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..c40a22e 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -54,12 +54,9 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From 30a7fd740b6c4e7a7781baedefec728de8e98955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 34/61] fix: probe::ham: max_for_size is 0 for a single element

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/ham.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..6b076e7 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -168,7 +168,7 @@ Computes the number of elements in *X* that are not in their sorted position, wh
 | ----------- | ----------- | ------------- |
 | n log n     | n           | Forward       |
 
-`max_for_size`: |*X*| when every element in *X* is one element away from its sorted position.
+`max_for_size`: |*X*| when every element in *X* is one element away from its sorted position (0 when |*X*| < 2).
 
 ### *Inv*
 
diff --git a/include/cpp-sort/probes/ham.h b/include/cpp-sort/probes/ham.h
index fde0c2a..50365db 100644
--- a/include/cpp-sort/probes/ham.h
+++ b/include/cpp-sort/probes/ham.h
@@ -110,7 +110,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : n;
+                return n < 2 ? 0 : n;
             }
         };
     }
-- 
2.43.0


From fdc63d265187e586755073041205f215e2cf837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 35/61] fix: probe::osc: max_for_size for every size

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 6b076e7..4cf8ef7 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From cb26b33d135ab71d5b5fd4b37ac88b8bf95c450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 36/61] fix: as_projection, as_comparison and operator|: accept
 plain functions

---
 include/cpp-sort/utility/functional.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index cc50947..83516a7 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -76,8 +76,8 @@ namespace utility
     constexpr auto operator|(T&& lhs, U&& rhs)
         -> decltype(auto)
     {
-        using lhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<T>(lhs)))>;
-        using rhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<U>(rhs)))>;
+        using lhs_t = std::decay_t<decltype(as_function(std::forward<T>(lhs)))>;
+        using rhs_t = std::decay_t<decltype(as_function(std::forward<U>(rhs)))>;
         return detail::projection_base_pipe_result<lhs_t, rhs_t>(
             as_function(std::forward<T>(lhs)),
             as_function(std::forward<U>(rhs))
@@ -297,10 +297,10 @@ namespace utility
     constexpr auto as_projection(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_projection_fn>,
-            detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_projection_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_projection_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
@@ -317,10 +317,10 @@ namespace utility
     constexpr auto as_comparison(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_comparison_fn>,
-            detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_comparison_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_comparison_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
-- 
2.43.0


From 4ea0738420473dce5eb4d08ea5816664cc4d7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 37/61] fix: operator|: compose utility::identity and
 std::identity

---
 include/cpp-sort/utility/functional.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index 83516a7..d7d42c4 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -151,6 +151,20 @@ namespace utility
         return {};
     }
 
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+    constexpr auto operator|(utility::identity, std::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+
+    constexpr auto operator|(std::identity, utility::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+#endif
+
     ////////////////////////////////////////////////////////////
     // indirect
 
-- 
2.43.0


From be60609482aa24b06b14cc1e1361d6c5131717c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 38/61] fix: sorted_indices: accept projections and iterators
 that return by value

---
 include/cpp-sort/utility/sorted_indices.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..da42aa1 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -17,7 +17,6 @@
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/adapter_storage.h>
-#include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include "../detail/checkers.h"
 #include "../detail/iterator_traits.h"
@@ -61,17 +60,21 @@ namespace utility
                 );
 
                 using difference_type = cppsort::detail::difference_type_t<RandomAccessIterator>;
-                auto&& proj = utility::as_function(projection);
 
                 // Create a vector of indices
                 std::vector<difference_type> indices(last - first, 0);
                 std::iota(indices.begin(), indices.end(), 0);
 
+                // Projections can return by value, as can operator[]
+                auto value_at = utility::as_projection(
+                    [&first](difference_type index) -> decltype(auto) {
+                        return first[index];
+                    }
+                );
+
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
-                                return proj(first[index]);
-                            });
+                            std::move(value_at) | std::move(projection));
 
                 // Return the indices that would sort the array
                 return indices;
-- 
2.43.0


From c390a4475d550aa4c2cee7b456243facdcbd48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 39/61] fix: iter_move returns a value for iterators with proxy
 references

The generic utility::iter_move returned a copy of the proxy reference itself
(e.g. std::vector<bool>::reference), which still aliases the sequence: every
algorithm holding an element aside read it back after it had been overwritten.
drop_merge_sort kept a lvalue reference to std::vector<bool>::back(), hence did
not compile for collections of bool.
---
 include/cpp-sort/detail/drop_merge_sort.h | 2 +-
 include/cpp-sort/utility/iter_move.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/drop_merge_sort.h b/include/cpp-sort/detail/drop_merge_sort.h
index 962bb82..75be8e6 100644
--- a/include/cpp-sort/detail/drop_merge_sort.h
+++ b/include/cpp-sort/detail/drop_merge_sort.h
@@ -130,7 +130,7 @@ namespace detail
 
         auto back = end;
         do {
-            auto& last_dropped = dropped.back();
+            auto&& last_dropped = dropped.back();
 
             while (begin != write && comp(proj(last_dropped), proj(*std::prev(write)))) {
                 --back;
diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..14ff119 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -66,7 +66,7 @@ namespace cppsort
         using iter_move_t = cppsort::detail::conditional_t<
             std::is_reference<typename std::iterator_traits<Iterator>::reference>::value,
             std::remove_reference_t<typename std::iterator_traits<Iterator>::reference>&&,
-            std::decay_t<typename std::iterator_traits<Iterator>::reference>
+            typename std::iterator_traits<Iterator>::value_type
         >;
     }
 
-- 
2.43.0


From 3615932ac4e57a38b66194955325bb7dc9dc442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 40/61] fix: keep proxy references alive while their projection
 is used

auto&& x = proj(*it) dangles when *it is a prvalue and the projection returns a
reference to its parameter, as utility::identity does.
---
 .../cpp-sort/detail/adaptive_quickselect.h    |  9 ++++---
 include/cpp-sort/detail/cartesian_tree_sort.h |  3 ++-
 .../detail/front_inserter/inserter10.h        |  3 ++-
 .../detail/front_inserter/inserter11.h        |  3 ++-
 .../detail/front_inserter/inserter3.h         |  3 ++-
 .../detail/front_inserter/inserter4.h         |  3 ++-
 .../detail/front_inserter/inserter5.h         |  3 ++-
 .../detail/front_inserter/inserter6.h         |  3 ++-
 .../detail/front_inserter/inserter7.h         |  3 ++-
 .../detail/front_inserter/inserter8.h         |  3 ++-
 .../detail/front_inserter/inserter9.h         |  3 ++-
 include/cpp-sort/detail/grail_sort.h          |  3 ++-
 include/cpp-sort/detail/introselect.h         |  6 +++--
 include/cpp-sort/detail/melsort.h             |  3 ++-
 include/cpp-sort/detail/merge_sort.h          |  6 +++--
 include/cpp-sort/detail/quick_merge_sort.h    |  3 ++-
 include/cpp-sort/detail/quicksort.h           |  6 +++--
 include/cpp-sort/detail/slabsort.h            | 25 +++++++++++--------
 include/cpp-sort/detail/splaysort.h           |  3 ++-
 include/cpp-sort/detail/vergesort.h           |  6 +++--
 include/cpp-sort/probes/enc.h                 |  3 ++-
 include/cpp-sort/probes/osc.h                 |  3 ++-
 22 files changed, 68 insertions(+), 38 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..3b88ae1 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_ref = *r;
+            auto&& pivot_proj = proj(pivot_ref);
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(old_pivot_ref);
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_ref = r[0];
+            auto&& pivot_proj = proj(pivot_ref);
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 440afd6..dcc01bf 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& proj_value = proj(value_ref);
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..77709a6 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..4b5752e 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..21359fa 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..a2b67ba 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..238fdfd 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..d47d78c 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..604f147 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..879a48d 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..1c8ecbc 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0_ref = first[0u];
+            auto&& proj0 = proj(value0_ref);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index f38f138..c5627d7 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_ref = *midkey;
+        auto&& midkey_proj = proj(midkey_ref);
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..90455f0 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(pivot1_ref);
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(pivot2_ref);
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..19fdf38 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -147,7 +147,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(value_ref);
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..62a1e02 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..4b5897a 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& mid_value_ref = *middle;
+        auto&& mid_value = proj(mid_value_ref);
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..025318b 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(pivot1_ref);
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(pivot2_ref);
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index b7409fc..f0199df 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -11,7 +11,6 @@
 #include <iterator>
 #include <utility>
 #include <vector>
-#include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/adapters/stable_adapter.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
@@ -112,7 +111,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(pivot_ref);
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -152,16 +152,18 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& value_ref = *it;
+            auto&& value = proj(value_ref);
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*std::prev(list.end()).base()->it);
-                    }
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto& list, auto&& value) {
+                        return comp(value, proj(*std::prev(list.end()).base()->it));
+                    },
+                    utility::identity{}
                 );
                 insertion_point->push_back([&it](node_type* node) {
                     ::new (&node->it) BidirectionalIterator(it);
@@ -169,10 +171,11 @@ namespace detail
             } else if (not comp(proj(*last_list.begin().base()->it), value)) {
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*list.begin().base()->it);
-                    }
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto& list, auto&& value) {
+                        return comp(proj(*list.begin().base()->it), value);
+                    },
+                    utility::identity{}
                 );
                 insertion_point->push_front([&it](node_type* node) {
                     ::new (&node->it) BidirectionalIterator(it);
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..d62605c 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value_proj = proj(value_ref);
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..3e8471a 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& target_ref = *begin;
+                    auto&& target = proj(target_ref);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& target_ref = *std::prev(next_it->end);
+                    auto&& target = proj(target_ref);
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..395b9b7 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,8 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& value = proj(value_ref);
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index 771b801..3df6d7c 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,8 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value = proj(value_ref);
 
                 auto current = first;
                 auto next = std::next(first);
-- 
2.43.0


From 3f22a015f1b544b109de6a8a4ed89dee47b0160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 41/61] fix: iter_move and iter_swap: forward to the iterators
 wrapped by reverse and move iterators

The overloads for std::reverse_iterator and std::move_iterator were disabled
precisely when the wrapped iterator customises iter_move or iter_swap, because
the check that disables them looked through the adaptor; before C++20 elements
were then moved and swapped behind the customisation points' back.
---
 include/cpp-sort/utility/iter_move.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index 14ff119..227878a 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -23,6 +23,13 @@ namespace cppsort
         // utility namespace avoids its iter_move and iter_swap
         // overloads getting in the way
 
+        struct call_adl_iter_move
+        {
+            template<typename Iterator>
+            auto operator()(Iterator it) const
+                -> decltype(iter_move(it));
+        };
+
         struct call_iter_move
         {
             template<typename Iterator>
@@ -53,6 +60,14 @@ namespace cppsort
                 -> decltype(iter_swap(it1.base(), it2.base()));
         };
 
+        // Whether an iter_move function exists for the iterator type itself,
+        // as opposed to the iterator it wraps: the standard library provides
+        // both iter_move and iter_swap for its iterator adaptors in C++20,
+        // prior to that only the generic std::iter_swap can be found by ADL
+
+        template<typename Iterator>
+        constexpr bool has_adl_iter_move_v = detail::is_invocable_v<call_adl_iter_move, Iterator>;
+
         template<typename Iterator>
         constexpr bool has_iter_move_v = detail::is_invocable_v<call_iter_move, Iterator>;
 
@@ -123,11 +138,11 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_adl_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
-            -> decltype(iter_move(it.base()))
+            -> decltype(auto)
         {
             return iter_move(std::prev(it.base()));
         }
@@ -135,7 +150,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_adl_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -150,11 +165,11 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_adl_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
-            -> decltype(iter_move(it.base()))
+            -> decltype(auto)
         {
             return iter_move(it.base());
         }
@@ -162,7 +177,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_adl_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From 54e5881ae36053b5b8307b93c672387d6d4f67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 42/61] fix: associate_iterator: take elements out with
 iter_move

schwartz_adapter, stable_adapter and the like moved from the dereferenced
iterator, ignoring its iter_move customisation.
---
 include/cpp-sort/detail/associate_iterator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 20dcc3b..88df970 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -65,16 +65,15 @@ namespace detail
         {}
 
         auto operator=(association&& other)
-            noexcept(noexcept(*it = std::move(*other.it)) &&
-                     std::is_nothrow_move_assignable<Data>::value)
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
 
-        auto operator=(associated_value<value_type_t<Iterator>, Data>&& other)
+        auto operator=(associated_value<rvalue_type_t<Iterator>, Data>&& other)
             -> association&
         {
             *it = std::move(other.value);
@@ -344,12 +343,13 @@ namespace detail
             CPPSORT_ATTRIBUTE_NODISCARD
             friend auto iter_move(associate_iterator it)
                 -> associated_value<
-                    value_type_t<typename value_type_t<Iterator>::iterator_type>,
+                    rvalue_type_t<typename value_type_t<Iterator>::iterator_type>,
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From ddb89050c6b834489794574d5001f4b1277a5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 43/61] fix: spin_sorter: reverse descending runs with
 iter_swap

Exchanging through a pair of different iterator types always fell back to
std::iter_swap, which ignores the iter_swap customisation of the collection
and does not compile with proxy references.
---
 include/cpp-sort/detail/spinsort.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
-- 
2.43.0


From ffcfa69916582085cfb883d499ad2a5ed92d9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 44/61] fix: make_integer_range: empty range when Begin == End

---
 include/cpp-sort/utility/make_integer_range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/make_integer_range.h b/include/cpp-sort/utility/make_integer_range.h
index 78f4479..cfc1f8b 100644
--- a/include/cpp-sort/utility/make_integer_range.h
+++ b/include/cpp-sort/utility/make_integer_range.h
@@ -62,7 +62,8 @@ namespace utility
         Integer,
         std::make_integer_sequence<
             Integer,
-            ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
+            (Begin == End) ? 0 :
+                ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
         >,
         Begin,
         (Step ? Step : 1),
-- 
2.43.0


From 32b07856abf842e12ccd8698cc090eefdda7013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 45/61] fix: metric: assignment from a metric with another
 value type; metrics: copy from a non-const lvalue

---
 include/cpp-sort/utility/metrics_tools.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..93be643 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -91,7 +91,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, const U&>::value)
                 -> metric&
             {
-                _value = other._value;
+                _value = other.value();
                 return *this;
             }
 
@@ -100,7 +100,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, U>::value)
                 -> metric&
             {
-                _value = std::move(other._value);
+                _value = std::move(other).value();
                 return *this;
             }
 
@@ -258,7 +258,12 @@ namespace utility
             metrics(const metrics&) = default;
             metrics(metrics&&) = default;
 
-            template<typename... Args>
+            template<
+                typename... Args,
+                typename = cppsort::detail::enable_if_t<
+                    std::is_constructible<std::tuple<metric<TT, Tags>...>, Args&&...>::value
+                >
+            >
             constexpr explicit metrics(Args&&... args):
                 metrics_(std::forward<Args>(args)...)
             {}
-- 
2.43.0


From d1ed930766ea4b97c83b108df7270d380481ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 46/61] fix: swap_index_pairs_force_unroll: empty networks with
 default comparison and projection

---
 include/cpp-sort/utility/sorting_networks.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/sorting_networks.h b/include/cpp-sort/utility/sorting_networks.h
index cc79f36..f10cf7a 100644
--- a/include/cpp-sort/utility/sorting_networks.h
+++ b/include/cpp-sort/utility/sorting_networks.h
@@ -118,9 +118,14 @@ namespace utility
         detail::index_pair_swapper_force_unroll<0>::do_it(first, index_pairs, std::move(compare), std::move(projection));
     }
 
-    template<typename RandomAccessIterator, typename IndexType, typename Compare, typename Projection>
+    template<
+        typename RandomAccessIterator,
+        typename IndexType,
+        typename Compare = std::less<>,
+        typename Projection = utility::identity
+    >
     auto swap_index_pairs_force_unroll(RandomAccessIterator, const std::array<index_pair<IndexType>, 0>&,
-                                       Compare, Projection)
+                                       Compare={}, Projection={})
         -> void
     {}
 }}
-- 
2.43.0


From f4d8b11df25be6b9c6298d5347b49c9bb3e7c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 47/61] fix: documentation of log, sorting_networks.h and
 is_probably_branchless_projection

---
 docs/Miscellaneous-utilities.md | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/Miscellaneous-utilities.md b/docs/Miscellaneous-utilities.md
index c988863..4f3cc6f 100644
--- a/docs/Miscellaneous-utilities.md
+++ b/docs/Miscellaneous-utilities.md
@@ -121,7 +121,7 @@ constexpr bool is_probably_branchless_projection_v
 This trait tells whether the projection function `Projection` is likely to generate branchless code when called with an instance of `T`. By default it considers that the following projection functions are likely to be branchless:
 * `cppsort::utility::identity` for any type
 * [`std::identity`][std-identity] for any type (when available)
-* Any type that satisfies [`std::is_member_function_pointer`][std-is-member-function-pointer] provided it is called with an instance of the appropriate class
+* Any type that satisfies [`std::is_member_object_pointer`][std-is-member-object-pointer] provided it is called with an instance of the appropriate class
 
 These traits can be specialized for user-defined types. If one of the traits is specialized to consider that a user-defined type is likely to be branchless with a comparison/projection function, cv-qualified and reference-qualified versions of the same user-defined type will also be considered to produce branchless code when compared/projected with the same function.
 
@@ -195,7 +195,7 @@ struct indirect:
 
 This header also provides additional function objects implementing basic unary operations. These functions objects are designed to be used as *size policies* with `dynamic_buffer` and similar classes. The following function objects are available:
 * `half`: returns the passed value divided by 2.
-* `log`: returns the base 10 logarithm of the passed value.
+* `log`: returns the natural logarithm of the passed value.
 * `sqrt`: returns the square root of the passed value.
 
 All of those function objects inherit from `projection_base` and are [*transparent function objects*][transparent-func].
@@ -485,7 +485,7 @@ When the collection contains *equivalent elements*, the order of the correspondi
 ### Sorting network tools
 
 ```cpp
-#include <cpp-sort/utility/sorting_network.h>
+#include <cpp-sort/utility/sorting_networks.h>
 ```
 
 Some of the library's [*fixed-size sorters*][fixed-size-sorters] implement [sorting networks][sorting-network]. It is a subdomain of sorting that has seen extensive research and there is no way all of the interesting bits could be provided as mere sorters; therefore the following tools are provided specifically to experiment with sorting networks, and with comparator networks more generally.
@@ -579,7 +579,7 @@ You can read more about this instantiation pattern in [this article][eric-nieble
   [std-integral-constant]: https://en.cppreference.com/w/cpp/types/integral_constant
   [std-invoke]: https://en.cppreference.com/w/cpp/utility/functional/invoke
   [std-is-arithmetic]: https://en.cppreference.com/w/cpp/types/is_arithmetic
-  [std-is-member-function-pointer]: https://en.cppreference.com/w/cpp/types/is_member_function_pointer
+  [std-is-member-object-pointer]: https://en.cppreference.com/w/cpp/types/is_member_object_pointer
   [std-less]: https://en.cppreference.com/w/cpp/utility/functional/less
   [std-less-void]: https://en.cppreference.com/w/cpp/utility/functional/less_void
   [std-mem-fn]: https://en.cppreference.com/w/cpp/utility/functional/mem_fn
-- 
2.43.0


From 4df4b52278ba8971f80a83fa9c612f940f4b8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 48/61] fix: is_stable: ask about the calls that adapters
 actually make to the adapted sorters

---
 include/cpp-sort/adapters/counting_adapter.h  |  4 +-
 include/cpp-sort/adapters/indirect_adapter.h  | 34 +++++++-
 .../cpp-sort/adapters/out_of_place_adapter.h  | 25 +++++-
 include/cpp-sort/adapters/schwartz_adapter.h  | 41 +++++++++-
 include/cpp-sort/detail/comparison_counter.h  | 59 ++++++++++++++
 .../cpp-sort/detail/schwartz_small_array.h    | 23 ++++++
 include/cpp-sort/detail/stability_of_call.h   | 81 +++++++++++++++++++
 include/cpp-sort/metrics/comparisons.h        |  4 +-
 include/cpp-sort/metrics/moves.h              | 32 +++++++-
 include/cpp-sort/metrics/projections.h        | 18 ++++-
 include/cpp-sort/utility/sorted_indices.h     | 48 ++++++++---
 include/cpp-sort/utility/sorted_iterators.h   | 20 ++++-
 12 files changed, 372 insertions(+), 17 deletions(-)
 create mode 100644 include/cpp-sort/detail/stability_of_call.h

diff --git a/include/cpp-sort/adapters/counting_adapter.h b/include/cpp-sort/adapters/counting_adapter.h
index 4ff6f74..7cee605 100644
--- a/include/cpp-sort/adapters/counting_adapter.h
+++ b/include/cpp-sort/adapters/counting_adapter.h
@@ -26,7 +26,9 @@ namespace cppsort
     // Declared first to avoid deprecation warning
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<counting_adapter<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        decltype(detail::comparison_counter_stability<Sorter, CountType>::check(
+            std::declval<Args>()...
+        ))
     {};
 
     ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/adapters/indirect_adapter.h b/include/cpp-sort/adapters/indirect_adapter.h
index a08fd0e..3f95489 100644
--- a/include/cpp-sort/adapters/indirect_adapter.h
+++ b/include/cpp-sort/adapters/indirect_adapter.h
@@ -24,6 +24,7 @@
 #include "../detail/indiesort.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/scope_exit.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -214,9 +215,40 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter>
+        struct indirect_stability
+        {
+            // The adapted sorter sorts a collection of iterators
+
+            template<
+                typename Iterator, typename Compare, typename Projection,
+                typename Category = iterator_category_t<Iterator>
+            >
+            struct call:
+                is_stable<Sorter(
+                    it_and_index<Iterator>*, it_and_index<Iterator>*, Compare,
+                    remove_cvref_t<decltype(
+                        &it_and_index<Iterator>::original_location
+                        | utility::indirect{} | std::declval<Projection>()
+                    )>
+                )>
+            {};
+
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call<Iterator, Compare, Projection, std::random_access_iterator_tag>:
+                is_stable<Sorter(
+                    Iterator*, Iterator*, Compare,
+                    remove_cvref_t<decltype(utility::indirect{} | std::declval<Projection>())>
+                )>
+            {};
+        };
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<indirect_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::indirect_stability<Sorter>, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..f402b70 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -106,9 +106,32 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter>
+        struct out_of_place_stability
+        {
+            // The adapted sorter sorts a memory buffer
+
+            template<typename Iterator, typename... Args>
+            static auto check(Iterator, Iterator, Args&&...)
+                -> is_stable<Sorter(rvalue_type_t<Iterator>*, rvalue_type_t<Iterator>*, Args...)>;
+
+            template<typename Iterable, typename... Args>
+            static auto check(Iterable&& iterable, Args&&...)
+                -> is_stable<Sorter(rvalue_type_t<remove_cvref_t<decltype(std::begin(iterable))>>*,
+                                    rvalue_type_t<remove_cvref_t<decltype(std::begin(iterable))>>*,
+                                    Args...)>;
+
+            // Invalid calls
+            static auto check(...)
+                -> std::false_type;
+        };
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<out_of_place_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        decltype(detail::out_of_place_stability<Sorter>::check(std::declval<Args>()...))
     {};
 }
 
diff --git a/include/cpp-sort/adapters/schwartz_adapter.h b/include/cpp-sort/adapters/schwartz_adapter.h
index a0685ba..7b365ab 100644
--- a/include/cpp-sort/adapters/schwartz_adapter.h
+++ b/include/cpp-sort/adapters/schwartz_adapter.h
@@ -25,6 +25,7 @@
 #include "../detail/config.h"
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -240,9 +241,47 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter, typename... Args>
+        struct schwartz_stability
+        {
+            // The adapted sorter sorts the projected elements
+
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call:
+                is_stable<Sorter(
+                    associate_iterator<association<Iterator, projected_t<Iterator, Projection>>*>,
+                    associate_iterator<association<Iterator, projected_t<Iterator, Projection>>*>,
+                    Compare,
+                    data_getter
+                )>
+            {};
+
+            // No projection to handle, everything is forwarded to the adapted sorter
+
+            template<typename Iterator, typename Compare>
+            struct call<Iterator, Compare, utility::identity>:
+                is_stable<Sorter(Args...)>
+            {};
+
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+            template<typename Iterator, typename Compare>
+            struct call<Iterator, Compare, std::identity>:
+                is_stable<Sorter(Args...)>
+            {};
+#endif
+        };
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<schwartz_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::schwartz_stability<Sorter, Args...>, Args...>
+    {};
+
+    template<typename Sorter, typename... Args>
+    struct is_stable<schwartz_adapter<schwartz_adapter<Sorter>>(Args...)>:
+        is_stable<schwartz_adapter<Sorter>(Args...)>
     {};
 }
 
diff --git a/include/cpp-sort/detail/comparison_counter.h b/include/cpp-sort/detail/comparison_counter.h
index 8dd3a0f..3b04c0c 100644
--- a/include/cpp-sort/detail/comparison_counter.h
+++ b/include/cpp-sort/detail/comparison_counter.h
@@ -8,9 +8,15 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <functional>
+#include <iterator>
+#include <type_traits>
 #include <utility>
+#include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/branchless_traits.h>
+#include <cpp-sort/utility/functional.h>
+#include "type_traits.h"
 
 namespace cppsort
 {
@@ -47,6 +53,59 @@ namespace cppsort
         };
     }
 
+    namespace detail
+    {
+        // Stability of an adapter that passes a comparison_counter
+        // to the adapted sorter
+
+        template<typename Sorter, typename CountType>
+        struct comparison_counter_stability
+        {
+            // Calls with a pair of iterators
+
+            template<typename Iterator>
+            static auto check(Iterator, Iterator)
+                -> is_stable<Sorter(Iterator, Iterator, comparison_counter<std::less<>, CountType>)>;
+
+            template<typename Iterator, typename Function>
+            static auto check(Iterator, Iterator, Function)
+                -> conditional_t<
+                    is_projection_iterator_v<utility::identity, Iterator, Function>,
+                    is_stable<Sorter(Iterator, Iterator, comparison_counter<Function, CountType>)>,
+                    is_stable<Sorter(Iterator, Iterator, comparison_counter<std::less<>, CountType>, Function)>
+                >;
+
+            template<typename Iterator, typename Compare, typename Projection>
+            static auto check(Iterator, Iterator, Compare, Projection)
+                -> is_stable<Sorter(Iterator, Iterator, comparison_counter<Compare, CountType>, Projection)>;
+
+            // Calls with a collection
+
+            template<typename Iterable, typename=decltype(std::begin(std::declval<Iterable&>()))>
+            static auto check(Iterable&&)
+                -> is_stable<Sorter(Iterable, comparison_counter<std::less<>, CountType>)>;
+
+            template<typename Iterable, typename Function, typename=decltype(std::begin(std::declval<Iterable&>()))>
+            static auto check(Iterable&&, Function)
+                -> conditional_t<
+                    is_projection_v<utility::identity, Iterable, Function>,
+                    is_stable<Sorter(Iterable, comparison_counter<Function, CountType>)>,
+                    is_stable<Sorter(Iterable, comparison_counter<std::less<>, CountType>, Function)>
+                >;
+
+            template<
+                typename Iterable, typename Compare, typename Projection,
+                typename=decltype(std::begin(std::declval<Iterable&>()))
+            >
+            static auto check(Iterable&&, Compare, Projection)
+                -> is_stable<Sorter(Iterable, comparison_counter<Compare, CountType>, Projection)>;
+
+            // Invalid calls
+            static auto check(...)
+                -> std::false_type;
+        };
+    }
+
     namespace utility
     {
         template<typename Compare, typename CountType, typename T>
diff --git a/include/cpp-sort/detail/schwartz_small_array.h b/include/cpp-sort/detail/schwartz_small_array.h
index 3483434..8bdfe58 100644
--- a/include/cpp-sort/detail/schwartz_small_array.h
+++ b/include/cpp-sort/detail/schwartz_small_array.h
@@ -79,6 +79,29 @@ namespace cppsort
             return sorter{}(array, std::forward<Args>(args)...);
         }
     };
+
+    ////////////////////////////////////////////////////////////
+    // is_stable specializations
+
+    template<
+        template<std::size_t> class FixedSizeSorter,
+        typename Indices,
+        typename T, std::size_t N,
+        typename... Args
+    >
+    struct is_stable<schwartz_adapter<small_array_adapter<FixedSizeSorter, Indices>>(std::array<T, N>&, Args...)>:
+        is_stable<schwartz_adapter<FixedSizeSorter<N>>(std::array<T, N>&, Args...)>
+    {};
+
+    template<
+        template<std::size_t> class FixedSizeSorter,
+        typename Indices,
+        typename T, std::size_t N,
+        typename... Args
+    >
+    struct is_stable<schwartz_adapter<small_array_adapter<FixedSizeSorter, Indices>>(T (&)[N], Args...)>:
+        is_stable<schwartz_adapter<FixedSizeSorter<N>>(T (&)[N], Args...)>
+    {};
 }
 
 #endif // CPPSORT_ADAPTERS_SCHWARTZ_SMALL_ARRAY_H_
diff --git a/include/cpp-sort/detail/stability_of_call.h b/include/cpp-sort/detail/stability_of_call.h
new file mode 100644
index 0000000..e26ef04
--- /dev/null
+++ b/include/cpp-sort/detail/stability_of_call.h
@@ -0,0 +1,81 @@
+/*
+ * Copyright (c) 2024 Morwenn
+ * SPDX-License-Identifier: MIT
+ */
+#ifndef CPPSORT_DETAIL_STABILITY_OF_CALL_H_
+#define CPPSORT_DETAIL_STABILITY_OF_CALL_H_
+
+////////////////////////////////////////////////////////////
+// Headers
+////////////////////////////////////////////////////////////
+#include <functional>
+#include <iterator>
+#include <type_traits>
+#include <utility>
+#include <cpp-sort/sorter_traits.h>
+#include <cpp-sort/utility/functional.h>
+#include "type_traits.h"
+
+namespace cppsort
+{
+namespace detail
+{
+    // Many sorter adapters don't call the adapted sorter with the
+    // parameters they are given: they might for example sort another
+    // collection or use another projection, in which case the adapted
+    // sorter might pick another algorithm. The following tool computes
+    // the iterator, comparison and projection used to sort a collection
+    // from the parameters passed to the adapter, then passes them to
+    // Policy::call<Iterator, Compare, Projection>, which is expected to
+    // tell whether the actual call to the adapted sorter is stable
+
+    template<typename Iterable>
+    using iterator_of_t = remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>;
+
+    template<typename Policy>
+    struct stability_of_call
+    {
+        template<typename Iterator>
+        static auto check_iterator()
+            -> typename Policy::template call<Iterator, std::less<>, utility::identity>;
+
+        template<typename Iterator, typename Compare>
+        static auto check_iterator()
+            -> enable_if_t<
+                is_projection_iterator_v<utility::identity, Iterator, Compare>,
+                typename Policy::template call<Iterator, Compare, utility::identity>
+            >;
+
+        template<typename Iterator, typename Projection>
+        static auto check_iterator()
+            -> enable_if_t<
+                not is_projection_iterator_v<utility::identity, Iterator, Projection> &&
+                is_projection_iterator_v<Projection, Iterator>,
+                typename Policy::template call<Iterator, std::less<>, Projection>
+            >;
+
+        template<typename Iterator, typename Compare, typename Projection>
+        static auto check_iterator()
+            -> enable_if_t<
+                is_projection_iterator_v<Projection, Iterator, Compare>,
+                typename Policy::template call<Iterator, Compare, Projection>
+            >;
+
+        template<typename Iterator, typename... Functions>
+        static auto check(Iterator, Iterator, Functions&&...)
+            -> decltype(check_iterator<Iterator, remove_cvref_t<Functions>...>());
+
+        template<typename Iterable, typename... Functions>
+        static auto check(Iterable&&, Functions&&...)
+            -> decltype(check_iterator<iterator_of_t<Iterable>, remove_cvref_t<Functions>...>());
+
+        // Invalid calls
+        static auto check(...)
+            -> std::false_type;
+    };
+
+    template<typename Policy, typename... Args>
+    using stability_of_call_t = decltype(stability_of_call<Policy>::check(std::declval<Args>()...));
+}}
+
+#endif // CPPSORT_DETAIL_STABILITY_OF_CALL_H_
diff --git a/include/cpp-sort/metrics/comparisons.h b/include/cpp-sort/metrics/comparisons.h
index fab1c5b..52e1696 100644
--- a/include/cpp-sort/metrics/comparisons.h
+++ b/include/cpp-sort/metrics/comparisons.h
@@ -143,7 +143,9 @@ namespace cppsort
 
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::comparisons<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        decltype(detail::comparison_counter_stability<Sorter, CountType>::check(
+            std::declval<Args>()...
+        ))
     {};
 }
 
diff --git a/include/cpp-sort/metrics/moves.h b/include/cpp-sort/metrics/moves.h
index 8c47501..e58112c 100644
--- a/include/cpp-sort/metrics/moves.h
+++ b/include/cpp-sort/metrics/moves.h
@@ -21,6 +21,7 @@
 #include "../detail/fake_category_iterator.h"
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -194,9 +195,38 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter, typename CountType>
+        struct moves_stability
+        {
+            template<typename Iterator>
+            using wrapper_t = metrics::detail::move_counting_wrapper<
+                rvalue_type_t<Iterator>,
+                CountType
+            >;
+
+            template<typename Iterator>
+            using iterator_t = fake_category_iterator<
+                wrapper_t<Iterator>*,
+                iterator_category_t<Iterator>
+            >;
+
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call:
+                is_stable<Sorter(
+                    iterator_t<Iterator>, iterator_t<Iterator>, Compare,
+                    remove_cvref_t<decltype(
+                        utility::as_projection(&wrapper_t<Iterator>::value) | std::declval<Projection>()
+                    )>
+                )>
+            {};
+        };
+    }
+
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::moves<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::moves_stability<Sorter, CountType>, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/metrics/projections.h b/include/cpp-sort/metrics/projections.h
index df6b010..d711cc5 100644
--- a/include/cpp-sort/metrics/projections.h
+++ b/include/cpp-sort/metrics/projections.h
@@ -20,6 +20,7 @@
 #include <cpp-sort/utility/metrics_tools.h>
 #include "../detail/checkers.h"
 #include "../detail/iterator_traits.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -144,9 +145,24 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter, typename CountType>
+        struct projections_stability
+        {
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call:
+                is_stable<Sorter(
+                    Iterator, Iterator, Compare,
+                    metrics::detail::projection_counter<Projection, CountType>
+                )>
+            {};
+        };
+    }
+
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::projections<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::projections_stability<Sorter, CountType>, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index da42aa1..8099bdc 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -20,6 +20,7 @@
 #include <cpp-sort/utility/functional.h>
 #include "../detail/checkers.h"
 #include "../detail/iterator_traits.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -28,6 +29,25 @@ namespace utility
 {
     namespace detail
     {
+        // Projection that retrieves the value at a given index, which
+        // can be returned by value by both operator[] and projections
+        template<typename RandomAccessIterator>
+        struct value_at:
+            utility::projection_base
+        {
+            RandomAccessIterator first;
+
+            explicit value_at(RandomAccessIterator first):
+                first(std::move(first))
+            {}
+
+            auto operator()(cppsort::detail::difference_type_t<RandomAccessIterator> index) const
+                -> decltype(auto)
+            {
+                return first[index];
+            }
+        };
+
         template<typename Sorter>
         struct sorted_indices_impl:
             utility::adapter_storage<Sorter>,
@@ -65,16 +85,9 @@ namespace utility
                 std::vector<difference_type> indices(last - first, 0);
                 std::iota(indices.begin(), indices.end(), 0);
 
-                // Projections can return by value, as can operator[]
-                auto value_at = utility::as_projection(
-                    [&first](difference_type index) -> decltype(auto) {
-                        return first[index];
-                    }
-                );
-
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            std::move(value_at) | std::move(projection));
+                            value_at<RandomAccessIterator>(first) | std::move(projection));
 
                 // Return the indices that would sort the array
                 return indices;
@@ -104,9 +117,26 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter>
+        struct sorted_indices_stability
+        {
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call:
+                is_stable<Sorter(
+                    std::vector<difference_type_t<Iterator>>&, Compare,
+                    remove_cvref_t<decltype(
+                        std::declval<utility::detail::value_at<Iterator>>() | std::declval<Projection>()
+                    )>
+                )>
+            {};
+        };
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<cppsort::utility::sorted_indices<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::sorted_indices_stability<Sorter>, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/utility/sorted_iterators.h b/include/cpp-sort/utility/sorted_iterators.h
index abed120..0baeadf 100644
--- a/include/cpp-sort/utility/sorted_iterators.h
+++ b/include/cpp-sort/utility/sorted_iterators.h
@@ -20,6 +20,7 @@
 #include <cpp-sort/utility/size.h>
 #include "../detail/checkers.h"
 #include "../detail/iterator_traits.h"
+#include "../detail/stability_of_call.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -134,9 +135,26 @@ namespace cppsort
     ////////////////////////////////////////////////////////////
     // is_stable specialization
 
+    namespace detail
+    {
+        template<typename Sorter>
+        struct sorted_iterators_stability
+        {
+            template<typename Iterator, typename Compare, typename Projection>
+            struct call:
+                is_stable<Sorter(
+                    typename std::vector<Iterator>::iterator,
+                    typename std::vector<Iterator>::iterator,
+                    Compare,
+                    remove_cvref_t<decltype(utility::indirect{} | std::declval<Projection>())>
+                )>
+            {};
+        };
+    }
+
     template<typename Sorter, typename... Args>
     struct is_stable<cppsort::utility::sorted_iterators<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::stability_of_call_t<detail::sorted_iterators_stability<Sorter>, Args...>
     {};
 }
 
-- 
2.43.0


From be3011cd6e20adda93f2d36a2ad2cb8d6a09940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 49/61] fix: sorter_facade: pick the range overloads of the
 implementation, without ambiguities

The overloads that bake the projection into the comparison, and those that
drop std::less<>, std::ranges::less and identity functions, only looked at
the overloads of the implementation taking iterators: with overloads taking
ranges calls were ambiguous, or went to the iterators instead. Also accept
std::ranges::less along with utility::identity.
---
 include/cpp-sort/sorter_facade.h | 108 ++++++++++++++++++++++++++++++-
 1 file changed, 106 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index f18c2b2..c3cd29e 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -429,6 +429,7 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>) const
             -> detail::enable_if_t<
+                not detail::has_comparison_sort<Sorter, Iterable, std::less<>>::value &&
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -454,6 +455,7 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::ranges::less) const
             -> detail::enable_if_t<
+                not detail::has_comparison_sort<Sorter, Iterable, std::ranges::less>::value &&
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -488,10 +490,17 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, utility::identity) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<Sorter, Iterable, utility::identity>::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    utility::identity
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                utility::identity
+                    utility::identity
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
@@ -525,10 +534,17 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<Sorter, Iterable, std::identity>::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    std::identity
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                std::identity
+                    std::identity
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
@@ -630,6 +646,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>, utility::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    utility::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -661,6 +683,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::less<>, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    std::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -815,6 +843,42 @@ namespace cppsort
         }
 
 #ifdef __cpp_lib_ranges
+        template<typename Iterator>
+        constexpr auto operator()(Iterator first, Iterator last, std::ranges::less, utility::identity) const
+            -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort_iterator<
+                    Sorter,
+                    Iterator,
+                    std::ranges::less,
+                    utility::identity
+                >::value,
+                decltype(Sorter::operator()(std::move(first), std::move(last)))
+            >
+        {
+            return Sorter::operator()(std::move(first), std::move(last));
+        }
+
+        template<typename Iterable>
+        constexpr auto operator()(Iterable&& iterable, std::ranges::less, utility::identity) const
+            -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::ranges::less,
+                    utility::identity
+                >::value &&
+                not detail::has_comparison_projection_sort_iterator<
+                    Sorter,
+                    decltype(std::begin(iterable)),
+                    std::ranges::less,
+                    utility::identity
+                >::value,
+                decltype(operator()(std::forward<Iterable>(iterable)))
+            >
+        {
+            return operator()(std::forward<Iterable>(iterable));
+        }
+
         template<typename Iterator>
         constexpr auto operator()(Iterator first, Iterator last, std::ranges::less, std::identity) const
             -> detail::enable_if_t<
@@ -833,6 +897,12 @@ namespace cppsort
         template<typename Iterable>
         constexpr auto operator()(Iterable&& iterable, std::ranges::less, std::identity) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::ranges::less,
+                    std::identity
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1044,6 +1114,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1074,6 +1155,17 @@ namespace cppsort
         template<typename Iterable, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    std::less<>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1114,6 +1206,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
@@ -1141,6 +1239,12 @@ namespace cppsort
         template<typename Iterable, typename Compare, typename Projection>
         constexpr auto operator()(Iterable&& iterable, Compare compare, Projection projection) const
             -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort<
+                    Sorter,
+                    Iterable,
+                    refined_t<decltype(*std::begin(iterable)), Compare>,
+                    refined_t<decltype(*std::begin(iterable)), Projection>
+                >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-- 
2.43.0


From 22e68b96aafcc49bdeb13026aa8b157d59c6237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 50/61] fix: out_of_place_adapter: constrain operator() on what
 the adapted sorter accepts

Asking whether it can be called was a hard error for anything else, so that
cppsort::sort(out_of_place_adapter<...>, range, function) did not compile.
---
 .../cpp-sort/adapters/out_of_place_adapter.h  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index f402b70..bf1c1de 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -79,7 +79,16 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Wrap and call the sorter
 
-        template<typename Iterator, typename... Args>
+        template<
+            typename Iterator,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_invocable<
+                const Sorter&,
+                detail::rvalue_type_t<Iterator>*,
+                detail::rvalue_type_t<Iterator>*,
+                Args...
+            >::value>
+        >
         auto operator()(Iterator first, Iterator last, Args&&... args) const
             -> decltype(auto)
         {
@@ -87,7 +96,17 @@ namespace cppsort
             return detail::sort_out_of_place(first, last, size, this->get(), std::forward<Args>(args)...);
         }
 
-        template<typename Iterable, typename... Args>
+        template<
+            typename Iterable,
+            typename... Args,
+            typename Iterator = detail::remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>,
+            typename = detail::enable_if_t<detail::is_invocable<
+                const Sorter&,
+                detail::rvalue_type_t<Iterator>*,
+                detail::rvalue_type_t<Iterator>*,
+                Args...
+            >::value>
+        >
         auto operator()(Iterable&& iterable, Args&&... args) const
             -> decltype(auto)
         {
-- 
2.43.0


From 47e104883f4a92da99760348545e0383dece6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 51/61] fix: sort, stable_sort: constrain the overload for a
 range and a function

It was chosen for a sorter and a pointer, so that container_aware_adapter,
which looks for sort() by ADL, did not compile on arrays once the header was
included.
---
 include/cpp-sort/sort.h        | 5 ++++-
 include/cpp-sort/stable_sort.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/sort.h b/include/cpp-sort/sort.h
index b98692f..9c419de 100644
--- a/include/cpp-sort/sort.h
+++ b/include/cpp-sort/sort.h
@@ -31,7 +31,10 @@ namespace cppsort
     template<
         typename Iterable,
         typename Compare,
-        typename = detail::enable_if_t<not is_sorter_v<Iterable, Compare>>
+        typename = detail::enable_if_t<
+            not is_sorter_v<Iterable, Compare> &&
+            detail::is_invocable<default_sorter, Iterable, Compare>::value
+        >
     >
     CPPSORT_DEPRECATED("cppsort::sort() is deprecated and will be removed in version 2.0.0")
     auto sort(Iterable&& iterable, Compare compare)
diff --git a/include/cpp-sort/stable_sort.h b/include/cpp-sort/stable_sort.h
index 0265046..ebed9c4 100644
--- a/include/cpp-sort/stable_sort.h
+++ b/include/cpp-sort/stable_sort.h
@@ -32,7 +32,10 @@ namespace cppsort
     template<
         typename Iterable,
         typename Compare,
-        typename = detail::enable_if_t<not is_sorter_v<Iterable, Compare>>
+        typename = detail::enable_if_t<
+            not is_sorter_v<Iterable, Compare> &&
+            detail::is_invocable<stable_t<default_sorter>, Iterable, Compare>::value
+        >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
     auto stable_sort(Iterable&& iterable, Compare compare)
-- 
2.43.0


From c6b7cac50d18d03ef32d7eca477190daa5417652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 52/61] fix: ska_sorter: no dangling keys with projections that
 return strings by value

---
 include/cpp-sort/detail/ska_sort.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 7c17639..53f65c6 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -802,7 +802,14 @@ namespace detail
 
             std::size_t current_index = sort_data->current_index;
             void* next_sort_data = sort_data->next_sort_data;
-            auto current_key = [&](auto&& elem) -> decltype(auto) {
+            // Do not return a reference to a part of a temporary
+            using key_type = conditional_t<
+                std::is_lvalue_reference<decltype(proj(*begin))>::value &&
+                std::is_lvalue_reference<decltype(CurrentSubKey::sub_key(proj(*begin), next_sort_data))>::value,
+                const ListType&,
+                ListType
+            >;
+            auto current_key = [&](auto&& elem) -> key_type {
                 return CurrentSubKey::sub_key(proj(elem), next_sort_data);
             };
             auto same_element = [&](const auto& lhs, const auto& rhs) {
-- 
2.43.0


From 22b4b9e46cd0893af34aaad56103b27e27c16802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 53/61] fix: swap_if: no infinite recursion with
 std::ranges::less and std::ranges::greater

---
 include/cpp-sort/detail/swap_if.h | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index 7ea2e4d..5570cf3 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -114,59 +114,59 @@ namespace detail
 
 #ifdef __cpp_lib_ranges
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 #endif
 
-- 
2.43.0


From 3e4acd99e8b7527c61bec372b5d46e20afd1def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 54/61] fix: stable_adapter<hybrid_adapter>: flatten nested
 hybrid adapters

---
 .../detail/stable_adapter_hybrid_adapter.h    | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
index fa8c003..51d38f6 100644
--- a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
@@ -14,16 +14,45 @@
 
 namespace cppsort
 {
+    namespace detail
+    {
+        // Every sorter of the flattened hybrid_adapter is made stable: wrapping
+        // the nested hybrid_adapter as a whole would hide the iterator categories
+        // of its sorters
+
+        template<typename HybridAdapterImpl>
+        struct stable_hybrid_adapter;
+
+        template<typename... Sorters>
+        struct stable_hybrid_adapter<hybrid_adapter_impl<Sorters...>>
+        {
+            using type = hybrid_adapter<stable_t<Sorters>...>;
+            using indices = std::make_index_sequence<sizeof...(Sorters)>;
+        };
+
+        template<typename... Sorters>
+        using stable_hybrid_adapter_for = stable_hybrid_adapter<
+            typename flatten_fold<
+                hybrid_adapter,
+                hybrid_adapter<Sorters...>,
+                hybrid_adapter_impl<>
+            >::type
+        >;
+    }
+
     template<typename... Sorters>
     struct stable_adapter<hybrid_adapter<Sorters...>>:
-        hybrid_adapter<stable_t<Sorters>...>
+        detail::stable_hybrid_adapter_for<Sorters...>::type
     {
         private:
 
-            template<std::size_t... Indices>
-            constexpr explicit stable_adapter(std::index_sequence<Indices...>, hybrid_adapter<Sorters...>&& sorters):
-                hybrid_adapter<stable_t<Sorters>...>(
-                    (stable_t<Sorters>(std::move(sorters).template get<Indices>()))...
+            using base_class = typename detail::stable_hybrid_adapter_for<Sorters...>::type;
+
+            template<std::size_t... Indices, typename... FlatSorters>
+            constexpr explicit stable_adapter(std::index_sequence<Indices...>,
+                                              detail::hybrid_adapter_impl<FlatSorters...>&& sorters):
+                base_class(
+                    (stable_t<FlatSorters>(std::move(sorters).template get<Indices>()))...
                 )
             {}
 
@@ -35,7 +64,8 @@ namespace cppsort
             stable_adapter() = default;
 
             constexpr explicit stable_adapter(hybrid_adapter<Sorters...> sorters):
-                stable_adapter(std::make_index_sequence<sizeof...(Sorters)>{}, std::move(sorters))
+                stable_adapter(typename detail::stable_hybrid_adapter_for<Sorters...>::indices{},
+                               std::move(sorters))
             {}
 
             ////////////////////////////////////////////////////////////
-- 
2.43.0


From 773ef6001ffec17fe7a905706cf9b7b0cb048125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 55/61] fix: self_sort_adapter: lists with any allocator sort
 themselves stably

---
 include/cpp-sort/adapters/self_sort_adapter.h | 24 +++++++++----------
 .../detail/stable_adapter_self_sort_adapter.h | 18 +++++++-------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index a1e2316..d0ef66a 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -167,30 +167,30 @@ namespace cppsort
         >
     {};
 
-    template<typename Sorter, typename T>
-    struct is_stable<self_sort_adapter<Sorter>(std::forward_list<T>&)>:
+    template<typename Sorter, typename T, typename Allocator>
+    struct is_stable<self_sort_adapter<Sorter>(std::forward_list<T, Allocator>&)>:
         std::true_type
     {};
 
-    template<typename Sorter, typename T, typename Function>
-    struct is_stable<self_sort_adapter<Sorter>(std::forward_list<T>&, Function)>:
+    template<typename Sorter, typename T, typename Allocator, typename Function>
+    struct is_stable<self_sort_adapter<Sorter>(std::forward_list<T, Allocator>&, Function)>:
         detail::conditional_t<
-            is_projection_v<Function, std::forward_list<T>&>,
-            is_stable<Sorter(std::forward_list<T>&, Function)>,
+            is_projection_v<Function, std::forward_list<T, Allocator>&>,
+            is_stable<Sorter(std::forward_list<T, Allocator>&, Function)>,
             std::true_type
         >
     {};
 
-    template<typename Sorter, typename T>
-    struct is_stable<self_sort_adapter<Sorter>(std::list<T>&)>:
+    template<typename Sorter, typename T, typename Allocator>
+    struct is_stable<self_sort_adapter<Sorter>(std::list<T, Allocator>&)>:
         std::true_type
     {};
 
-    template<typename Sorter, typename T, typename Function>
-    struct is_stable<self_sort_adapter<Sorter>(std::list<T>&, Function)>:
+    template<typename Sorter, typename T, typename Allocator, typename Function>
+    struct is_stable<self_sort_adapter<Sorter>(std::list<T, Allocator>&, Function)>:
         detail::conditional_t<
-            is_projection_v<Function, std::list<T>&>,
-            is_stable<Sorter(std::list<T>&, Function)>,
+            is_projection_v<Function, std::list<T, Allocator>&>,
+            is_stable<Sorter(std::list<T, Allocator>&, Function)>,
             std::true_type
         >
     {};
diff --git a/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h b/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
index 439ea89..0438b97 100644
--- a/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
@@ -75,8 +75,8 @@ namespace cppsort
         // Special cases for standard library lists whose sort
         // method implements a stable sort
 
-        template<typename T>
-        auto operator()(std::forward_list<T>& iterable) const
+        template<typename T, typename Allocator>
+        auto operator()(std::forward_list<T, Allocator>& iterable) const
             -> void
         {
             iterable.sort();
@@ -84,17 +84,18 @@ namespace cppsort
 
         template<
             typename T,
+            typename Allocator,
             typename Compare,
-            typename = detail::enable_if_t<not is_projection_v<Compare, std::forward_list<T>&>>
+            typename = detail::enable_if_t<not is_projection_v<Compare, std::forward_list<T, Allocator>&>>
         >
-        auto operator()(std::forward_list<T>& iterable, Compare compare) const
+        auto operator()(std::forward_list<T, Allocator>& iterable, Compare compare) const
             -> void
         {
             iterable.sort(utility::as_function(compare));
         }
 
-        template<typename T>
-        auto operator()(std::list<T>& iterable) const
+        template<typename T, typename Allocator>
+        auto operator()(std::list<T, Allocator>& iterable) const
             -> void
         {
             iterable.sort();
@@ -102,10 +103,11 @@ namespace cppsort
 
         template<
             typename T,
+            typename Allocator,
             typename Compare,
-            typename = detail::enable_if_t<not is_projection_v<Compare, std::list<T>&>>
+            typename = detail::enable_if_t<not is_projection_v<Compare, std::list<T, Allocator>&>>
         >
-        auto operator()(std::list<T>& iterable, Compare compare) const
+        auto operator()(std::list<T, Allocator>& iterable, Compare compare) const
             -> void
         {
             iterable.sort(utility::as_function(compare));
-- 
2.43.0


From 4ef4a6f7a115873781bff95c75478ace6dfd3b9c Mon Sep 17 00:00:00 2001
From: cpp-sort <v@v>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 56/61] fix: stable_adapter: make stable sorters out of already
 wrapped sorters

stable_t<stable_adapter<S>> is S when S is always stable, but S can't be constructed from
an instance of stable_adapter<S>: stable_adapter<verge_adapter<stable_adapter<S>>> did
not compile when called, and stable_adapter of hybrid_adapter or self_sort_adapter could
not be constructed from an instance adapting stable_adapter<S>.
---
 include/cpp-sort/adapters/stable_adapter.h    | 34 +++++++++++++++++++
 .../detail/stable_adapter_hybrid_adapter.h    |  2 +-
 .../detail/stable_adapter_self_sort_adapter.h |  2 +-
 include/cpp-sort/detail/vergesort.h           |  2 +-
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/adapters/stable_adapter.h b/include/cpp-sort/adapters/stable_adapter.h
index ba01af2..b5aa5bd 100644
--- a/include/cpp-sort/adapters/stable_adapter.h
+++ b/include/cpp-sort/adapters/stable_adapter.h
@@ -308,6 +308,40 @@ namespace cppsort
         cppsort::is_always_stable_v<Sorter>
     >::type;
 
+    namespace detail
+    {
+        // Turn an instance of Sorter into an instance of stable_t<Sorter>:
+        // the latter is generally constructible from the former, but might
+        // also be the sorter stored in the former when it is a stable_adapter
+
+        template<typename Sorter>
+        constexpr auto to_stable_t_impl(Sorter&& sorter, int)
+            -> enable_if_t<
+                std::is_same<
+                    remove_cvref_t<decltype(std::move(sorter).get())>,
+                    stable_t<Sorter>
+                >::value,
+                stable_t<Sorter>
+            >
+        {
+            return std::move(sorter).get();
+        }
+
+        template<typename Sorter>
+        constexpr auto to_stable_t_impl(Sorter&& sorter, long)
+            -> stable_t<Sorter>
+        {
+            return stable_t<Sorter>(std::move(sorter));
+        }
+
+        template<typename Sorter>
+        constexpr auto to_stable_t(Sorter sorter)
+            -> stable_t<Sorter>
+        {
+            return to_stable_t_impl<Sorter>(std::move(sorter), 0);
+        }
+    }
+
     ////////////////////////////////////////////////////////////
     // stable_adapter<stable_adapter<T>>
 
diff --git a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
index 51d38f6..2d63470 100644
--- a/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_hybrid_adapter.h
@@ -52,7 +52,7 @@ namespace cppsort
             constexpr explicit stable_adapter(std::index_sequence<Indices...>,
                                               detail::hybrid_adapter_impl<FlatSorters...>&& sorters):
                 base_class(
-                    (stable_t<FlatSorters>(std::move(sorters).template get<Indices>()))...
+                    (detail::to_stable_t<FlatSorters>(std::move(sorters).template get<Indices>()))...
                 )
             {}
 
diff --git a/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h b/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
index 0438b97..c9d3110 100644
--- a/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
+++ b/include/cpp-sort/detail/stable_adapter_self_sort_adapter.h
@@ -37,7 +37,7 @@ namespace cppsort
 
         constexpr explicit stable_adapter(self_sort_adapter<Sorter> sorter):
             utility::adapter_storage<stable_t<Sorter>>(
-                stable_t<Sorter>(std::move(sorter.get()))
+                detail::to_stable_t<Sorter>(std::move(sorter).get())
             )
         {}
 
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 3e8471a..2c4f1f8 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -504,7 +504,7 @@ namespace verge
     auto get_maybe_stable(std::true_type, Sorter&& sorter)
         -> cppsort::stable_t<Sorter>
     {
-        return cppsort::stable_t<Sorter>(std::move(sorter));
+        return cppsort::detail::to_stable_t<Sorter>(std::move(sorter));
     }
 
     template<typename Sorter>
-- 
2.43.0


From de7d44e830660dac93549ccada3f9e248733ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:15 +0000
Subject: [PATCH 57/61] fix: probe::exc: don't compute positions from forward
 iterators

The documented complexity of probe::exc is O(n log n) for forward
iterators, but the position of every element was computed with
std::distance from the beginning of the collection, which made it
quadratic for forward and bidirectional iterators.
---
 include/cpp-sort/probes/exc.h | 45 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 7930159..2bec912 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -10,6 +10,7 @@
 ////////////////////////////////////////////////////////////
 #include <functional>
 #include <iterator>
+#include <numeric>
 #include <utility>
 #include <vector>
 #include <cpp-sort/sorter_facade.h>
@@ -44,18 +45,26 @@ namespace probe
             }
 
             ////////////////////////////////////////////////////////////
-            // Indirectly sort the iterators
+            // Indirectly sort the positions of the elements
 
-            // Copy the iterators in a vector
+            // Copy the iterators in a vector: computing the position of
+            // an element from its iterator is not always a constant-time
+            // operation, so only positions are handled from there on
             cppsort::detail::immovable_vector<ForwardIterator> iterators(size);
             for (auto it = first; it != last; ++it) {
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
+            std::vector<difference_type> positions(size);
+            std::iota(positions.begin(), positions.end(), difference_type(0));
+
+            // Sort the positions on pointed values
+            auto indirect_proj = utility::indirect{} | projection;
             cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
-                compare, utility::indirect{} | projection
+                positions.begin(), positions.end(), compare,
+                [&iterators, &indirect_proj](difference_type pos) -> decltype(auto) {
+                    return indirect_proj(iterators[pos]);
+                }
             );
 
             ////////////////////////////////////////////////////////////
@@ -63,16 +72,15 @@ namespace probe
 
             std::vector<bool> sorted(size, false);
 
-            // Element where the current cycle starts
-            auto start = first;
+            // Position where the current cycle starts
+            difference_type start = 0;
 
             difference_type cycles = 0;
-            while (start != last) {
+            while (start != size) {
                 // Find the element to put in current's place
                 auto current = start;
-                auto next_pos = std::distance(first, current);
-                auto next = iterators[next_pos];
-                sorted[next_pos] = true;
+                auto next = positions[current];
+                sorted[current] = true;
 
                 // Process the current cycle
                 if (next != current) {
@@ -82,26 +90,25 @@ namespace probe
                         // a suitable place, so we count one more cycle as if it was an
                         // already suitably placed element, this handles collections with
                         // several elements which compare equivalent
-                        if (not comp(proj(*next), proj(*current)) &&
-                            not comp(proj(*current), proj(*next))) {
+                        auto&& current_it = iterators[current];
+                        auto&& next_it = iterators[next];
+                        if (not comp(proj(*next_it), proj(*current_it)) &&
+                            not comp(proj(*current_it), proj(*next_it))) {
                             ++cycles;
                         }
                         // Locate the next element of the cycle
                         current = next;
-                        auto next_pos = std::distance(first, next);
-                        next = iterators[next_pos];
-                        sorted[next_pos] = true;
+                        next = positions[current];
+                        sorted[current] = true;
                     }
                 }
 
                 ++cycles;
 
                 // Find the next cycle
-                auto&& sorted_it = sorted.begin() + std::distance(first, start);
                 do {
                     ++start;
-                    ++sorted_it;
-                } while (start != last && *sorted_it);
+                } while (start != size && sorted[start]);
             }
             return size - cycles;
         }
-- 
2.43.0


From 76b7ce8216822fde78c71819e987d8fe6063aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 58/61] fix: container_aware_adapter<insertion_sorter>: linear
 best case
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The dedicated algorithms performed a binary search for every element, which
requires O(n log n) comparisons and O(n²) node traversals for a collection
that is already sorted, while the best case is documented as n.
---
 .../detail/container_aware/insertion_sort.h   | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..b6b1d6a 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -32,22 +32,26 @@ namespace cppsort
                                  Compare compare, Projection projection)
             -> void
         {
+            auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
 
             auto it = collection.begin();
             auto last = collection.end();
             if (it == last) return;
 
-            // Size of the list where a value is inserted
-            typename std::list<Args...>::difference_type size = 1;
+            // Number of elements before the last one of the list where
+            // a value is inserted
+            typename std::list<Args...>::difference_type size = 0;
 
             ++it;
             while (it != last) {
-                auto insertion_point = upper_bound_n(collection.begin(), size, proj(*it),
-                                                     compare, projection);
-                if (insertion_point == it) {
+                // Compare to the last sorted element first to avoid searching
+                // where to insert an element already positioned correctly
+                if (not comp(proj(*it), proj(*std::prev(it)))) {
                     ++it;
                 } else {
+                    auto insertion_point = upper_bound_n(collection.begin(), size, proj(*it),
+                                                         compare, projection);
                     auto next = std::next(it);
                     collection.splice(insertion_point, collection, it);
                     it = next;
@@ -68,13 +72,23 @@ namespace cppsort
             auto last = collection.end();
             if (++it == last) return;
 
-            // Size of the list where a value is inserted
-            typename std::forward_list<Args...>::difference_type size = 1;
+            // Number of elements before the last one of the list where
+            // a value is inserted
+            typename std::forward_list<Args...>::difference_type size = 0;
 
             while (std::next(it) != last) {
+                auto&& value = proj(*std::next(it));
+
+                // Compare to the last sorted element first to avoid searching
+                // where to insert an element already positioned correctly
+                if (not comp(value, proj(*it))) {
+                    ++it;
+                    ++size;
+                    continue;
+                }
+
                 // Binary search to find where to insert the value, we can't
                 // use upper_bound because of the specificities of forward_list
-                auto&& value = proj(*std::next(it));
                 auto insertion_point = collection.before_begin();
                 for (auto search_size = size ; search_size > 0 ;) {
                     auto search_it = std::next(insertion_point, half(search_size));
@@ -86,13 +100,9 @@ namespace cppsort
                     }
                 }
 
-                if (insertion_point == it) {
-                    ++it;
-                } else {
-                    // We splice the elements after it to some position before it,
-                    // so this effectively advances the iterator towards last
-                    collection.splice_after(insertion_point, collection, it);
-                }
+                // We splice the elements after it to some position before it,
+                // so this effectively advances the iterator towards last
+                collection.splice_after(insertion_point, collection, it);
                 ++size;
             }
         }
-- 
2.43.0


From c4cf796562060a9ab1917ee095b631ed5b19a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 59/61] fix: sorter_facade: refine functions for the value
 type, not for references to it

---
 include/cpp-sort/sorter_facade.h | 319 ++++++++++++++++---------------
 1 file changed, 160 insertions(+), 159 deletions(-)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index c3cd29e..f1e8915 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -16,6 +16,7 @@
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/functional.h>
 #include "detail/config.h"
+#include "detail/iterator_traits.h"
 #include "detail/type_traits.h"
 
 namespace cppsort
@@ -202,14 +203,14 @@ namespace cppsort
                 detail::has_comparison_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Compare>
+                    refined_t<detail::value_type_t<Iterator>, Compare>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last),
-                                            refined<decltype(*first)>(std::move(compare))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(compare))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last),
-                                      refined<decltype(*first)>(std::move(compare)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(compare)));
         }
 
         template<typename Iterable, typename Compare>
@@ -218,14 +219,14 @@ namespace cppsort
                 detail::has_comparison_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(compare))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(compare)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)));
         }
 
         template<typename Iterable, typename Compare>
@@ -234,19 +235,19 @@ namespace cppsort
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>
                 >::value &&
                 detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Compare>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(compare))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(compare)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)));
         }
 
         ////////////////////////////////////////////////////////////
@@ -258,19 +259,19 @@ namespace cppsort
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last),
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last),
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterator, typename Projection>
@@ -279,20 +280,20 @@ namespace cppsort
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     Iterator,
                     std::less<>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last), std::less<>{},
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last), std::less<>{},
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -301,19 +302,19 @@ namespace cppsort
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -322,25 +323,25 @@ namespace cppsort
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable), std::less<>{},
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable), std::less<>{},
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -349,35 +350,35 @@ namespace cppsort
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -386,31 +387,31 @@ namespace cppsort
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable), std::less<>{},
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable), std::less<>{},
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         ////////////////////////////////////////////////////////////
@@ -568,17 +569,17 @@ namespace cppsort
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Compare>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Compare>,
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(first, last,
-                                            refined<decltype(*first)>(std::move(compare)),
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(compare)),
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(first, last,
-                                      refined<decltype(*first)>(std::move(compare)),
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(compare)),
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Compare, typename Projection>
@@ -587,17 +588,17 @@ namespace cppsort
                 detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Compare, typename Projection>
@@ -606,23 +607,23 @@ namespace cppsort
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                            refined<decltype(*std::begin(iterable))>(compare),
-                                            refined<decltype(*std::begin(iterable))>(projection)))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(compare),
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(projection)))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         ////////////////////////////////////////////////////////////
@@ -709,14 +710,14 @@ namespace cppsort
                     Sorter,
                     Iterator,
                     std::less<>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last), compare,
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last), compare,
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterator, typename Projection>
@@ -726,19 +727,19 @@ namespace cppsort
                     Sorter,
                     Iterator,
                     std::less<>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last),
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last),
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -748,14 +749,14 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable), compare,
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable), compare,
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -765,20 +766,20 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable), compare,
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable), compare,
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -788,25 +789,25 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -816,30 +817,30 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
 #ifdef __cpp_lib_ranges
@@ -922,14 +923,14 @@ namespace cppsort
                     Sorter,
                     Iterator,
                     std::ranges::less,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last), compare,
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last), compare,
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterator, typename Projection>
@@ -939,19 +940,19 @@ namespace cppsort
                     Sorter,
                     Iterator,
                     std::ranges::less,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::move(first), std::move(last),
-                                            refined<decltype(*first)>(std::move(projection))))
+                                            refined<detail::value_type_t<Iterator>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::move(first), std::move(last),
-                                      refined<decltype(*first)>(std::move(projection)));
+                                      refined<detail::value_type_t<Iterator>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -961,14 +962,14 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable), compare,
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable), compare,
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -978,20 +979,20 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable), compare,
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable), compare,
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -1001,25 +1002,25 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 
         template<typename Iterable, typename Projection>
@@ -1029,30 +1030,30 @@ namespace cppsort
                     Sorter,
                     Iterable,
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::ranges::less,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                            refined<decltype(*std::begin(iterable))>(std::move(projection))))
+                                            refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
-                                      refined<decltype(*std::begin(iterable))>(std::move(projection)));
+                                      refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)));
         }
 #endif
 
@@ -1067,21 +1068,21 @@ namespace cppsort
                     Sorter,
                     Iterator,
                     std::less<>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_comparison_sort_iterator<
                     Sorter,
                     Iterator,
-                    projection_compare<std::less<>, refined_t<decltype(*first), Projection>>
+                    projection_compare<std::less<>, refined_t<detail::value_type_t<Iterator>, Projection>>
                 >::value,
                 decltype(Sorter::operator()(first, last,
                                             make_projection_compare(std::less<>{},
-                                                                    refined<decltype(*first)>(std::move(projection)))))
+                                                                    refined<detail::value_type_t<Iterator>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(first, last,
                                       make_projection_compare(std::less<>{},
-                                                              refined<decltype(*first)>(std::move(projection))));
+                                                              refined<detail::value_type_t<Iterator>>(std::move(projection))));
         }
 
         template<typename Iterator, typename Compare, typename Projection>
@@ -1090,25 +1091,25 @@ namespace cppsort
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     Iterator,
-                    refined_t<decltype(*first), Compare>,
-                    refined_t<decltype(*first), Projection>
+                    refined_t<detail::value_type_t<Iterator>, Compare>,
+                    refined_t<detail::value_type_t<Iterator>, Projection>
                 >::value &&
                 detail::has_comparison_sort_iterator<
                     Sorter,
                     Iterator,
                     projection_compare<
-                        refined_t<decltype(*first), Compare>,
-                        refined_t<decltype(*first), Projection>
+                        refined_t<detail::value_type_t<Iterator>, Compare>,
+                        refined_t<detail::value_type_t<Iterator>, Projection>
                     >
                 >::value,
                 decltype(Sorter::operator()(first, last, make_projection_compare(
-                    refined<decltype(*first)>(std::move(compare)),
-                    refined<decltype(*first)>(std::move(projection)))))
+                    refined<detail::value_type_t<Iterator>>(std::move(compare)),
+                    refined<detail::value_type_t<Iterator>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(first, last, make_projection_compare(
-                refined<decltype(*first)>(std::move(compare)),
-                refined<decltype(*first)>(std::move(projection))));
+                refined<detail::value_type_t<Iterator>>(std::move(compare)),
+                refined<detail::value_type_t<Iterator>>(std::move(projection))));
         }
 
         template<typename Iterable, typename Projection>
@@ -1117,39 +1118,39 @@ namespace cppsort
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_sort<
                     Sorter,
                     Iterable,
                     projection_compare<
                         std::less<>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable), make_projection_compare(
-                    std::less<>{}, refined<decltype(*std::begin(iterable))>(std::move(projection)))))
+                    std::less<>{}, refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable), make_projection_compare(
-                std::less<>{}, refined<decltype(*std::begin(iterable))>(std::move(projection))));
+                std::less<>{}, refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))));
         }
 
         template<typename Iterable, typename Projection>
@@ -1158,31 +1159,31 @@ namespace cppsort
                 not detail::has_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     std::less<>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
                     projection_compare<
                         std::less<>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value &&
                 detail::has_comparison_sort_iterator<
@@ -1190,17 +1191,17 @@ namespace cppsort
                     decltype(std::begin(iterable)),
                     projection_compare<
                         std::less<>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable),
                                             make_projection_compare(std::less<>{},
-                                                                    refined<decltype(*std::begin(iterable))>(std::move(projection)))))
+                                                                    refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable),
                                       make_projection_compare(std::less<>{},
-                                                              refined<decltype(*std::begin(iterable))>(std::move(projection))));
+                                                              refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))));
         }
 
         template<typename Iterable, typename Compare, typename Projection>
@@ -1209,31 +1210,31 @@ namespace cppsort
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 detail::has_comparison_sort<
                     Sorter,
                     Iterable,
                     projection_compare<
-                        refined_t<decltype(*std::begin(iterable)), Compare>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value,
                 decltype(Sorter::operator()(std::forward<Iterable>(iterable), make_projection_compare(
-                    refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                    refined<decltype(*std::begin(iterable))>(std::move(projection)))))
+                    refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                    refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(std::forward<Iterable>(iterable), make_projection_compare(
-                refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                refined<decltype(*std::begin(iterable))>(std::move(projection))));
+                refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))));
         }
 
         template<typename Iterable, typename Compare, typename Projection>
@@ -1242,39 +1243,39 @@ namespace cppsort
                 not detail::has_comparison_projection_sort<
                     Sorter,
                     Iterable,
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_projection_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
-                    refined_t<decltype(*std::begin(iterable)), Compare>,
-                    refined_t<decltype(*std::begin(iterable)), Projection>
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                    refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                 >::value &&
                 not detail::has_comparison_sort<
                     Sorter,
                     Iterable,
                     projection_compare<
-                        refined_t<decltype(*std::begin(iterable)), Compare>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value &&
                 detail::has_comparison_sort_iterator<
                     Sorter,
                     decltype(std::begin(iterable)),
                     projection_compare<
-                        refined_t<decltype(*std::begin(iterable)), Compare>,
-                        refined_t<decltype(*std::begin(iterable)), Projection>
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Compare>,
+                        refined_t<detail::value_type_t<decltype(std::begin(iterable))>, Projection>
                     >
                 >::value,
                 decltype(Sorter::operator()(std::begin(iterable), std::end(iterable), make_projection_compare(
-                    refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                    refined<decltype(*std::begin(iterable))>(std::move(projection)))))
+                    refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                    refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection)))))
             >
         {
             return Sorter::operator()(std::begin(iterable), std::end(iterable), make_projection_compare(
-                refined<decltype(*std::begin(iterable))>(std::move(compare)),
-                refined<decltype(*std::begin(iterable))>(std::move(projection))));
+                refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(compare)),
+                refined<detail::value_type_t<decltype(std::begin(iterable))>>(std::move(projection))));
         }
     };
 }
-- 
2.43.0


From e813ff9bd768a0a67be774eb707bf44f3fbb5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 60/61] fix: allocate storage suitably aligned for over-aligned
 types

---
 include/cpp-sort/detail/fixed_size_list.h  |  6 +-
 include/cpp-sort/detail/immovable_vector.h |  8 +--
 include/cpp-sort/detail/memory.h           | 69 ++++++++++++++++------
 include/cpp-sort/detail/spinsort.h         |  6 +-
 include/cpp-sort/detail/timsort.h          |  8 +--
 5 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 33c7cbd..91fb93a 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -142,8 +142,8 @@ namespace detail
 
             explicit fixed_size_list_node_pool(std::ptrdiff_t capacity):
                 // Allocate enough space to store N nodes
-                buffer_(static_cast<node_type*>(::operator new(capacity * sizeof(node_type))),
-                       operator_deleter(capacity * sizeof(node_type))),
+                buffer_(allocate_storage<node_type>(capacity * sizeof(node_type)),
+                       operator_deleter<node_type>(capacity * sizeof(node_type))),
                 first_free_(buffer_.get()),
                 capacity_(capacity)
             {
@@ -239,7 +239,7 @@ namespace detail
             // Data members
 
             // Backing storage
-            std::unique_ptr<node_type, operator_deleter> buffer_;
+            std::unique_ptr<node_type, operator_deleter<node_type>> buffer_;
 
             // First free node of the pool
             list_node_base* first_free_;
diff --git a/include/cpp-sort/detail/immovable_vector.h b/include/cpp-sort/detail/immovable_vector.h
index 5527621..28b8ee0 100644
--- a/include/cpp-sort/detail/immovable_vector.h
+++ b/include/cpp-sort/detail/immovable_vector.h
@@ -48,7 +48,7 @@ namespace detail
             explicit immovable_vector(std::ptrdiff_t n):
                 capacity_(n),
                 memory_(
-                    static_cast<T*>(::operator new(n * sizeof(T)))
+                    allocate_storage<T>(n * sizeof(T))
                 ),
                 end_(memory_)
             {}
@@ -62,11 +62,7 @@ namespace detail
                 detail::destroy(memory_, end_);
 
                 // Free the allocated memory
-#ifdef __cpp_sized_deallocation
-                ::operator delete(memory_, capacity_ * sizeof(T));
-#else
-                ::operator delete(memory_);
-#endif
+                deallocate_storage<T>(memory_, capacity_ * sizeof(T));
             }
 
             ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/memory.h b/include/cpp-sort/detail/memory.h
index baee595..912b311 100644
--- a/include/cpp-sort/detail/memory.h
+++ b/include/cpp-sort/detail/memory.h
@@ -61,13 +61,58 @@ namespace detail
     }
 
     ////////////////////////////////////////////////////////////
-    // Deleter for ::operator new(std::size_t)
+    // Allocate and deallocate storage suitably aligned for T
 
+    template<typename T>
+    auto allocate_storage(std::size_t size)
+        -> T*
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(size, std::align_val_t(alignof(T))));
+        }
+#endif
+        return static_cast<T*>(::operator new(size));
+    }
+
+    template<typename T>
+    auto allocate_storage(std::size_t size, const std::nothrow_t& tag) noexcept
+        -> T*
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(size, std::align_val_t(alignof(T)), tag));
+        }
+#endif
+        return static_cast<T*>(::operator new(size, tag));
+    }
+
+    template<typename T>
+    auto deallocate_storage(void* pointer, std::size_t size) noexcept
+        -> void
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(pointer, std::align_val_t(alignof(T)));
+            return;
+        }
+#endif
+#ifdef __cpp_sized_deallocation
+        ::operator delete(pointer, size);
+#else
+        (void)size;
+        ::operator delete(pointer);
+#endif
+    }
+
+    ////////////////////////////////////////////////////////////
+    // Deleter for allocate_storage<T>(std::size_t)
+
+    template<typename T>
     struct operator_deleter
     {
         operator_deleter() = default;
 
-#ifdef __cpp_sized_deallocation
         std::size_t size = 0;
 
         constexpr explicit operator_deleter(std::size_t size) noexcept:
@@ -77,17 +122,8 @@ namespace detail
         inline auto operator()(void* pointer) const noexcept
             -> void
         {
-            ::operator delete(pointer, size);
-        }
-#else
-        constexpr explicit operator_deleter(std::size_t) noexcept {}
-
-        inline auto operator()(void* pointer) const noexcept
-            -> void
-        {
-            ::operator delete(pointer);
+            deallocate_storage<T>(pointer, size);
         }
-#endif
     };
 
     ////////////////////////////////////////////////////////////
@@ -165,7 +201,7 @@ namespace detail
         // Try to gradually allocate less memory until we get a valid buffer
         // or until the amount of memory to allocate reaches 0
         while (count > min_count) {
-            res.first = static_cast<T*>(::operator new(count * sizeof(T), std::nothrow));
+            res.first = allocate_storage<T>(count * sizeof(T), std::nothrow);
             if (res.first) {
                 res.second = count;
                 break;
@@ -179,12 +215,7 @@ namespace detail
     auto return_temporary_buffer(T* ptr, std::size_t count) noexcept
         -> void
     {
-#ifdef __cpp_sized_deallocation
-        ::operator delete(ptr, count * sizeof(T));
-#else
-        (void)count;
-        ::operator delete(ptr);
-#endif
+        deallocate_storage<T>(ptr, count * sizeof(T));
     }
 
     ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index a95c863..2d96a21 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -327,9 +327,9 @@ namespace detail
 
                     // Buffer used by the merge operations
                     auto buffer_size = nelem_1;
-                    std::unique_ptr<rvalue_type, operator_deleter> buffer(
-                        static_cast<rvalue_type*>(::operator new(buffer_size * sizeof(rvalue_type))),
-                        operator_deleter(buffer_size * sizeof(rvalue_type))
+                    std::unique_ptr<rvalue_type, operator_deleter<rvalue_type>> buffer(
+                        allocate_storage<rvalue_type>(buffer_size * sizeof(rvalue_type)),
+                        operator_deleter<rvalue_type>(buffer_size * sizeof(rvalue_type))
                     );
                     range_buf range_aux(buffer.get(), (buffer.get() + buffer_size));
 
diff --git a/include/cpp-sort/detail/timsort.h b/include/cpp-sort/detail/timsort.h
index 790cc45..9063748 100644
--- a/include/cpp-sort/detail/timsort.h
+++ b/include/cpp-sort/detail/timsort.h
@@ -89,7 +89,7 @@ namespace detail
         difference_type minGallop_ = min_gallop;
 
         // Buffer used for merges
-        std::unique_ptr<rvalue_type, operator_deleter> buffer;
+        std::unique_ptr<rvalue_type, operator_deleter<rvalue_type>> buffer;
         std::ptrdiff_t buffer_size = 0;
 
         // Silence GCC -Winline warning
@@ -420,10 +420,8 @@ namespace detail
                 // easily avoidable out-of-memory errors and make sized
                 // deallocation work properly
                 buffer.reset(nullptr);
-                buffer.get_deleter() = operator_deleter(new_size * sizeof(rvalue_type));
-                buffer.reset(static_cast<rvalue_type*>(
-                    ::operator new(new_size * sizeof(rvalue_type))
-                ));
+                buffer.get_deleter() = operator_deleter<rvalue_type>(new_size * sizeof(rvalue_type));
+                buffer.reset(allocate_storage<rvalue_type>(new_size * sizeof(rvalue_type)));
                 buffer_size = new_size;
             }
         }
-- 
2.43.0


From 98f41707e72bd7cd590df92e71922b414234b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 61/61] fix: mel_sorter and slab_sorter: support types that
 overload operator&

---
 include/cpp-sort/detail/fixed_size_list.h |  6 +++---
 include/cpp-sort/detail/slabsort.h        | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 91fb93a..f3955ed 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -92,7 +92,7 @@ namespace detail
     auto destroy_node_contents(NodeType* node)
         -> void
     {
-        detail::destroy_at(&(node->*Ptr));
+        detail::destroy_at(std::addressof(node->*Ptr));
     }
 
     ////////////////////////////////////////////////////////////
@@ -786,7 +786,7 @@ namespace detail
                 -> node_type*
             {
                 node_type* new_node = node_pool_->next_free_node();
-                ::new (&new_node->value) value_type(value);
+                ::new (std::addressof(new_node->value)) value_type(value);
                 link_node_before_(new_node, pos);
                 return new_node;
             }
@@ -795,7 +795,7 @@ namespace detail
                 -> node_type*
             {
                 node_type* new_node = node_pool_->next_free_node();
-                ::new (&new_node->value) value_type(std::move(value));
+                ::new (std::addressof(new_node->value)) value_type(std::move(value));
                 link_node_before_(new_node, pos);
                 return new_node;
             }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index f0199df..8c62458 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -9,6 +9,7 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <iterator>
+#include <memory>
 #include <utility>
 #include <vector>
 #include <cpp-sort/adapters/stable_adapter.h>
@@ -145,7 +146,7 @@ namespace detail
         std::vector<fixed_size_list<node_type>> lists;
         lists.emplace_back(node_pool, destroy_node_contents<BidirectionalIterator, node_type, &node_type::it>);
         lists.back().push_back([&first](node_type* node) {
-            ::new (&node->it) BidirectionalIterator(first);
+            ::new (std::addressof(node->it)) BidirectionalIterator(first);
         });
 
         ////////////////////////////////////////////////////////////
@@ -166,7 +167,7 @@ namespace detail
                     utility::identity{}
                 );
                 insertion_point->push_back([&it](node_type* node) {
-                    ::new (&node->it) BidirectionalIterator(it);
+                    ::new (std::addressof(node->it)) BidirectionalIterator(it);
                 });
             } else if (not comp(proj(*last_list.begin().base()->it), value)) {
                 // Element belongs to the heads (smaller elements)
@@ -178,14 +179,14 @@ namespace detail
                     utility::identity{}
                 );
                 insertion_point->push_front([&it](node_type* node) {
-                    ::new (&node->it) BidirectionalIterator(it);
+                    ::new (std::addressof(node->it)) BidirectionalIterator(it);
                 });
             } else {
                 // Element does not belong to the existing encroaching lists,
                 // create a new list for it
                 lists.emplace_back(node_pool, destroy_node_contents<BidirectionalIterator, node_type, &node_type::it>);
                 lists.back().push_back([&it](node_type* node) {
-                    ::new (&node->it) BidirectionalIterator(it);
+                    ::new (std::addressof(node->it)) BidirectionalIterator(it);
                 });
             }
 
@@ -207,17 +208,17 @@ namespace detail
                 for (auto end = list.end() ; it != end ; ++it) {
                     auto node = it.base();
                     auto value_it = node->it;
-                    detail::destroy_at(&node->it);
-                    ::new(&node->value) rvalue_type(iter_move(value_it));
+                    detail::destroy_at(std::addressof(node->it));
+                    ::new(std::addressof(node->value)) rvalue_type(iter_move(value_it));
                 }
             } catch (...) {
                 // Destroy the values already moved to the list and make every
                 // node hold an iterator again for the list to destroy it
                 for (auto pos = list.begin() ; pos != it ; ++pos) {
-                    detail::destroy_at(&pos.base()->value);
-                    ::new(&pos.base()->it) BidirectionalIterator(first);
+                    detail::destroy_at(std::addressof(pos.base()->value));
+                    ::new(std::addressof(pos.base()->it)) BidirectionalIterator(first);
                 }
-                ::new(&it.base()->it) BidirectionalIterator(first);
+                ::new(std::addressof(it.base()->it)) BidirectionalIterator(first);
                 throw;
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
-- 
2.43.0

