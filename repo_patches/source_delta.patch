From 40ffd62608428c3b15bd66fc03acdcd11cc0af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:57 +0000
Subject: [PATCH 01/34] fix: insert/emplace of an argument that refers to an
 own element (vector, deque)

The elements were shifted before the argument was read, so the inserted value
was the one that had moved into the argument's slot.
---
 include/fixed_containers/fixed_deque.hpp  | 8 ++++++--
 include/fixed_containers/fixed_vector.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..8a493c2 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,8 +324,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` can refer to an element of this container, so copy it before shifting elements
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -361,8 +363,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` can refer to elements of this container, so use them before shifting elements
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..239a414 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,8 +294,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` can refer to an element of this container, so copy it before shifting elements
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -335,8 +337,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` can refer to elements of this container, so use them before shifting elements
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
-- 
2.43.0


From db51cd78474e5501f0d4b329f4c45278d80168f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:49 +0000
Subject: [PATCH 02/34] fix: inserting or erasing an empty range in a vector or
 deque of non-trivial elements

The elements after the position were relocated onto themselves: constructed over
a live element and then destroyed.
---
 include/fixed_containers/fixed_deque.hpp  | 12 ++++++++++++
 include/fixed_containers/fixed_vector.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 8a493c2..090c2ce 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -419,6 +419,12 @@ public:
         const iterator read_end_it = std::next(read_start_it, entry_count_to_move);
         iterator write_start_it = const_to_mutable_it(first);
 
+        if (entry_count_to_remove == 0)
+        {
+            // Nothing to erase. Elements must not be relocated onto themselves.
+            return write_start_it;
+        }
+
         if (!std::is_constant_evaluated())
         {
             // We can only use this when `!is_constant_evaluated`, since otherwise Clang
@@ -587,6 +593,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Nothing to shift. Elements must not be relocated onto themselves.
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 239a414..f1a72ec 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -402,6 +402,12 @@ public:
         const iterator read_end_it = std::next(read_start_it, entry_count_to_move);
         iterator write_start_it = const_to_mutable_it(first);
 
+        if (entry_count_to_remove == 0)
+        {
+            // Nothing to erase. Elements must not be relocated onto themselves.
+            return write_start_it;
+        }
+
         if (!std::is_constant_evaluated())
         {
             // We can only use this when `!is_constant_evaluated`, since otherwise Clang
@@ -597,6 +603,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Nothing to shift. Elements must not be relocated onto themselves.
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From cd3cedb2d72cc9790f0fc1c2e94e5390d191365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:02 +0000
Subject: [PATCH 03/34] fix: circular deque additions whose argument refers to
 an own element

The dropped element was destroyed before the argument was read.
---
 .../fixed_containers/fixed_circular_deque.hpp | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..7f63352 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,7 +97,12 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` can refer to the element that is about to be dropped, so copy it first
+            push_back(value_type(value), loc);
+            return;
+        }
         deque().push_back(value, loc);
     }
     constexpr void push_back(
@@ -111,7 +116,12 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
+        if (is_full(deque()))
+        {
+            // `args` can refer to the element that is about to be dropped, so use them first
+            push_back(value_type(std::forward<Args>(args)...));
+            return back();
+        }
         return deque().emplace_back(std::forward<Args>(args)...);
     }
 
@@ -125,7 +135,12 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` can refer to the element that is about to be dropped, so copy it first
+            push_front(value_type(value), loc);
+            return;
+        }
         deque().push_front(value, loc);
     }
     constexpr void push_front(
@@ -139,7 +154,12 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
-        pop_back_if_full(std_transition::source_location::current());
+        if (is_full(deque()))
+        {
+            // `args` can refer to the element that is about to be dropped, so use them first
+            push_front(value_type(std::forward<Args>(args)...));
+            return front();
+        }
         return deque().emplace_front(std::forward<Args>(args)...);
     }
 
@@ -154,8 +174,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        // `value` can refer to the element that is about to be dropped, so copy it first
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -187,8 +207,8 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        // `args` can refer to the element that is about to be dropped, so use them first
+        return insert(pos, value_type(std::forward<Args>(args)...));
     }
 
     constexpr void assign(
-- 
2.43.0


From 9b223edb9709bc73c5e8bb4e0525cd3bfd52760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:36 +0000
Subject: [PATCH 04/34] fix: inserting at the beginning of a full circular
 deque

The element at the insertion position was dropped and the insertion then happened
before the first element (abort). As with ranges, the position is a barrier: the
incoming elements that do not fit are dropped.
---
 include/fixed_containers/fixed_circular_deque.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 7f63352..bb55932 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -182,6 +182,12 @@ public:
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if (is_full(deque()) && pos == cbegin() && pos != cend())
+        {
+            // Treat non-end `pos` as an uncrossable barrier. There is nothing before it that can be
+            // dropped, so the incoming element is.
+            return const_to_mutable_it(pos);
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -441,6 +447,7 @@ private:
         // If there are still more elements when we reach the barrier, overwrite the just-inserted
         // elements. This is analogous to dropping incoming elements in the std::input_iterator
         // overload
+        if (middle_it != end())
         {
             auto left2_it = middle_it;
             auto right2_it = end();
-- 
2.43.0


From 2f867e8b871ee8ff97787c4a6a32bc9b08286953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:48 +0000
Subject: [PATCH 05/34] fix: list insertion of an empty range returns the
 position

It returned end() instead.
---
 include/fixed_containers/fixed_list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..5e24fd9 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -504,7 +504,8 @@ private:
             }
         }
 
-        return create_iterator(inserted_point);
+        // Nothing was inserted if the range is empty
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     template <InputIterator InputIt>
@@ -537,7 +538,8 @@ private:
             Checking::length_error(MAXIMUM_SIZE + excess_element_count, loc);
         }
 
-        return create_iterator(inserted_point);
+        // Nothing was inserted if the range is empty
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     constexpr iterator create_iterator(const std::size_t offset_from_start) noexcept
-- 
2.43.0


From 0e87fef24221c5825d4a61507bc1d59d07971cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:22 +0000
Subject: [PATCH 06/34] fix: list remove(value) where value refers to an own
 element

The referenced element was deleted before the remaining comparisons.
---
 include/fixed_containers/fixed_list.hpp | 31 ++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 5e24fd9..db5924b 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -371,7 +371,36 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` can refer to an element of this list, which then has to be deleted last.
+        std::size_t index_of_value = NULL_INDEX;
+        size_type removed_counter = 0;
+
+        for (std::size_t i = front_index(); i != end_index();)
+        {
+            const T& entry = list().at(i);
+            if (!(entry == value))
+            {
+                i = list().next_of(i);
+            }
+            else if (std::addressof(entry) == std::addressof(value))
+            {
+                index_of_value = i;
+                i = list().next_of(i);
+            }
+            else
+            {
+                i = list().delete_at_and_return_next_index(i);
+                ++removed_counter;
+            }
+        }
+
+        if (index_of_value != NULL_INDEX)
+        {
+            destroy_at(index_of_value);
+            ++removed_counter;
+        }
+
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From 3e3823bbd7424308891cf33ffbf3110aa40de561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:58 +0000
Subject: [PATCH 07/34] fix: conversion of a reverse iterator to a const
 reverse iterator

The conversion went through the position constructor, which steps once for
reverse iterators, so the result was one element further.
---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..097714f 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_{other.reference_provider_}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..9df9bcf 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_{other.reference_provider_}
     {
     }
 
-- 
2.43.0


From 53f20b694f918afe9344e5dc095c0839185dc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:05 +0000
Subject: [PATCH 08/34] fix: default construction of reverse iterators

It stepped a provider that does not refer to any container (null dereference for
lists, maps, sets and enum maps/sets).
---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 097714f..5cad995 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 9df9bcf..0989050 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
-- 
2.43.0


From 8b873b8e6cb5fcf9db45ad74b5bf8c3857f275f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:18 +0000
Subject: [PATCH 09/34] fix: set rend()/crend() is before the smallest key

It was the predecessor of the key in slot 0, so reverse iteration stopped early
(or never) unless the smallest key happened to be in that slot.
---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From 04d725fe0077117d8cb12738fabc157d948b0303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:32 +0000
Subject: [PATCH 10/34] fix: rbegin().base()/rend().base() of an empty map or
 set equal end()

---
 include/fixed_containers/fixed_map.hpp | 3 ++-
 include/fixed_containers/fixed_set.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..4a71732 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -96,7 +96,8 @@ private:
         {
             if (current_index_ == NULL_INDEX)
             {
-                current_index_ = tree_->index_of_min_at();
+                current_index_ = replace_null_index_with_max_size_for_end_iterator(
+                    tree_->index_of_min_at());
             }
             else
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a0fb91d..27f5608 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -75,7 +75,8 @@ private:
         {
             if (current_index_ == NULL_INDEX)
             {
-                current_index_ = tree_->index_of_min_at();
+                current_index_ = replace_null_index_with_max_size_for_end_iterator(
+                    tree_->index_of_min_at());
             }
             else
             {
-- 
2.43.0


From 7472ea812a3f879e9bc22a08ccfeb8289f2e1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 11/34] fix: copies of maps and sets of non-trivial elements
 keep the comparator

Copy/move construction and assignment default-constructed the comparator (or kept
the target's), unlike the trivial flavor and std::map.
---
 include/fixed_containers/fixed_red_black_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..8fc7cc6 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -896,7 +896,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +914,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +943,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0


From 2c3ecd1745ed7a1b0cc1f119f51e7b9e2b7d18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:27 +0000
Subject: [PATCH 12/34] fix: contiguous storage: removing the last entry,
 full()

---
 include/fixed_containers/fixed_index_based_storage.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..8428a63 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -162,7 +162,7 @@ public:
     {
     }
 
-    [[nodiscard]] constexpr bool full() const noexcept { return nodes().full(); }
+    [[nodiscard]] constexpr bool full() const noexcept { return is_full(nodes()); }
 
     constexpr T& at(const std::size_t index) noexcept { return nodes().at(index); }
     [[nodiscard]] constexpr const T& at(const std::size_t index) const noexcept
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From 5237ed1bcecd475f7093d76b06810985d3e2074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 13/34] fix: EnumMap::insert_or_assign for values that are not
 trivially assignable

---
 include/fixed_containers/enum_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..4685b0d 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -471,8 +471,13 @@ public:
         {
             increment_size();
             array_set_unchecked_at(ordinal) = true;
+            memory::construct_at_address_of(
+                values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        }
+        else
+        {
+            unchecked_at(ordinal) = std::forward<M>(obj);
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
         return {create_iterator(ordinal), is_insertion};
     }
     template <class M>
-- 
2.43.0


From 367d034c90b025867a5445ce18239d7be20c0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:48 +0000
Subject: [PATCH 14/34] fix: FixedString::operator+=(char)

---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..bc58e81 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -342,7 +342,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 01987ba346d6e2e41db0c1a8ddd20811bd4ba927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 15/34] fix: OptionalReference::emplace

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..6ab6b24 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference new_val) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(new_val);
+        return new_val;
     }
 
 private:
-- 
2.43.0


From 647a94a3b499ee4272794c8d38b8cccdf978d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 16/34] fix: stack and queue emplace return a reference to the
 new element

---
 include/fixed_containers/queue_adapter.hpp | 2 +-
 include/fixed_containers/stack_adapter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index 64dc02f..e873af2 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -91,7 +91,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index c02b0b1..1332e76 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -76,7 +76,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
-- 
2.43.0


From 83d9b37bb7c0ca921a86ec018a5e132ec0516f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:13 +0000
Subject: [PATCH 17/34] fix: FixedString extraction from a stream

---
 include/fixed_containers/fixed_string.hpp | 40 ++++++++++-------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index bc58e81..b2a7ddb 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -8,6 +8,7 @@
 #include "fixed_containers/source_location.hpp"
 
 #include <array>
+#include <cctype>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
@@ -660,39 +661,32 @@ template <std::size_t MAXIMUM_LENGTH, typename CheckingType>
 std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, CheckingType>& str)
 {
     static constexpr std::size_t MAXIMUM_LENGTH_WITH_NULL_TERMINATOR = MAXIMUM_LENGTH + 1;
-    str.clear();
 
     // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
-    stream >> std::ws;
-
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    const std::istream::sentry sentry{stream};
+    if (!sentry)
     {
-        return stream.putback(character);
+        return stream;
     }
 
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
-    {
-        str.push_back(character);
-    }
+    str.clear();
 
-    if (stream.fail())
+    // The delimiter (whitespace or EOF) is not part of the string and is not consumed
+    for (auto next = stream.peek();
+         next != std::istream::traits_type::eof() && std::isspace(next) == 0;
+         next = stream.peek())
     {
-        stream.setstate(std::ios::failbit);
-        return stream;
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+        }
+        str.push_back(static_cast<char>(stream.get()));
     }
 
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
+    if (str.empty())
     {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
+        stream.setstate(std::ios::failbit);
     }
 
     return stream;
-- 
2.43.0


From 39852f4af991904849fabf03361189352e34b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 18/34] fix: FixedString::substr(size()) is the empty string

---
 include/fixed_containers/fixed_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index b2a7ddb..81201ad 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -605,7 +605,7 @@ public:
         const std_transition::source_location& loc =
             std_transition::source_location::current()) const
     {
-        if (preconditions::test(pos < length()))
+        if (preconditions::test(pos <= length()))
         {
             Checking::out_of_range(pos, length(), loc);
         }
-- 
2.43.0


From a82fd26c735d37501bea660dfa8ef94bbb6199fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:43 +0000
Subject: [PATCH 19/34] fix: signed overflow in the index arithmetic of deques
 of capacity 1

---
 include/fixed_containers/circular_indexing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..944906f 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,9 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // Subtract as unsigned: the intermediate values do not necessarily fit in a signed integer
+    out.cycles = static_cast<std::int64_t>(static_cast<std::uint64_t>(out.cycles) -
+                                           static_cast<std::uint64_t>(negative_cycles));
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From 038bd732bf359ec7340b537bd382b03b91d76f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:03 +0000
Subject: [PATCH 20/34] fix: emplace of an lvalue pair into a map

---
 include/fixed_containers/emplace.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index e183a20..43100b8 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -3,6 +3,7 @@
 #include "fixed_containers/concepts.hpp"
 
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers::emplace_detail
@@ -14,13 +15,13 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
 {
     return [&]<typename First, typename... Rest>(First&& first, Rest&&... rest)
     {
-        if constexpr (sizeof...(Rest) == 0 && IsStdPair<First>)
+        if constexpr (sizeof...(Rest) == 0 && IsStdPair<std::remove_cvref_t<First>>)
         {
             // Lambda to avoid compilation errors with .first/.second when passing a non-pair
             return [&container]<typename Pair>(Pair&& pair)
             {
-                return container.try_emplace(std::forward<decltype(pair.first)>(pair.first),
-                                             std::forward<decltype(pair.second)>(pair.second));
+                return container.try_emplace(std::forward<Pair>(pair).first,
+                                             std::forward<Pair>(pair).second);
             }(std::forward<First>(first));
         }
         else if constexpr (sizeof...(Rest) == 2 &&
-- 
2.43.0


From d5feecc2d584bb20137dd006d53875f2a796a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:03 +0000
Subject: [PATCH 21/34] fix: default hash of floating point keys

---
 include/fixed_containers/wyhash.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..54182b1 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -1,12 +1,15 @@
 #pragma once
 
 #include <array>
+#include <bit>
+#include <concepts>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <iterator>
 #include <memory>
 #include <string>
+#include <type_traits>
 
 // This is a stripped-down implementation of wyhash: https://github.com/wangyi-fudan/wyhash
 // No big-endian support (because different values on different machines don't matter),
@@ -213,6 +216,19 @@ struct hash<std::shared_ptr<T>>
     }
 };
 
+template <typename T>
+    requires(std::same_as<T, float> || std::same_as<T, double>)
+struct hash<T>
+{
+    constexpr std::uint64_t operator()(T value) const noexcept
+    {
+        using bits = std::conditional_t<std::same_as<T, float>, std::uint32_t, std::uint64_t>;
+        // Positive and negative zero are equal, but have different representations
+        return wyhash_detail::hash(
+            std::equal_to<T>{}(value, T{0}) ? 0 : std::bit_cast<bits>(value));
+    }
+};
+
 template <typename Enum>
     requires std::is_enum_v<Enum>
 struct hash<Enum>
@@ -224,8 +240,9 @@ struct hash<Enum>
     }
 };
 
+// The conversion of a negative or large floating point value to an integer is undefined
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::floating_point<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From c93fc79823f8aeb7ade6ab7031347d7721d72ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:42 +0000
Subject: [PATCH 22/34] fix: comparing containers of equal capacity and
 different layout

---
 include/fixed_containers/fixed_deque.hpp  | 2 +-
 include/fixed_containers/fixed_list.hpp   | 2 +-
 include/fixed_containers/fixed_map.hpp    | 3 ++-
 include/fixed_containers/fixed_set.hpp    | 3 ++-
 include/fixed_containers/fixed_vector.hpp | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 090c2ce..ed004db 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -507,7 +507,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index db5924b..e7c0512 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -465,7 +465,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 4a71732..a9d9382 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -631,7 +632,7 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 27f5608..4db1a9d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <functional>
 #include <memory>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -392,7 +393,7 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index f1a72ec..73166fc 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -581,7 +581,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(*this), decltype(other)>)
         {
             if (this == &other)
             {
-- 
2.43.0


From 6985eeb742314e86aded74f5474b1edfe546cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:43 +0000
Subject: [PATCH 23/34] fix: raw view stride of list elements with union tail
 padding

---
 .../fixed_doubly_linked_list_raw_view.hpp            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..d5e2f3f 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -66,7 +66,7 @@ public:
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
       // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      , elem_size_bytes_{union_size_bytes(elem_size_bytes, elem_align_bytes)}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -84,6 +84,16 @@ public:
             std::next(list_ptr_, value_storage_size() + chain_size()));
     }
 
+private:
+    // size of a union of an element and an `std::size_t`, including its tail padding
+    [[nodiscard]] static constexpr std::size_t union_size_bytes(
+        const std::size_t elem_size_bytes, const std::size_t elem_align_bytes) noexcept
+    {
+        const std::size_t union_align = std::max(elem_align_bytes, alignof(std::size_t));
+        const std::size_t raw_size = std::max(elem_size_bytes, sizeof(std::size_t));
+        return (raw_size + union_align - 1) / union_align * union_align;
+    }
+
 public:
     [[nodiscard]] constexpr std::ptrdiff_t value_storage_size() const noexcept
     {
-- 
2.43.0


From bea8d4660fde38568b29353c11b3634937b0e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:26 +0000
Subject: [PATCH 24/34] fix: default-constructed and end iterators of tree raw
 views

---
 include/fixed_containers/fixed_red_black_tree_view.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_red_black_tree_view.hpp b/include/fixed_containers/fixed_red_black_tree_view.hpp
index 2f279c9..6f55927 100644
--- a/include/fixed_containers/fixed_red_black_tree_view.hpp
+++ b/include/fixed_containers/fixed_red_black_tree_view.hpp
@@ -68,7 +68,7 @@ public:
         }
 
         Iterator() noexcept
-          : Iterator(nullptr, {}, {}, {}, {}, false)
+          : Iterator(nullptr, {}, {}, {}, {}, true)
         {
         }
 
@@ -119,6 +119,11 @@ public:
          */
         [[nodiscard]] constexpr const std::byte* node_pointer(std::size_t index) const
         {
+            if (index == NULL_INDEX)
+            {
+                return nullptr;
+            }
+
             switch (storage_type_)
             {
             case StorageType::FIXED_INDEX_POOL:
-- 
2.43.0


From 3be0cb33ebd0f9fda46e7fd8ecf6a828485f0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 25/34] fix: negation of the smallest value in safe_add and
 sign casts

---
 include/fixed_containers/int_math.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 1d3bf2e..1e38aeb 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -3,6 +3,7 @@
 #include "fixed_containers/assert_or_abort.hpp"
 
 #include <concepts>
+#include <type_traits>
 
 namespace fixed_containers::int_math
 {
@@ -51,7 +52,9 @@ public:
         if (is_negative_)
         {
             // TODO: ensure the value fits in the target type
-            return -static_cast<V>(unsigned_value());
+            // Negate as unsigned: the magnitude of the smallest value does not fit in V
+            using UnsignedV = std::make_unsigned_t<V>;
+            return static_cast<V>(UnsignedV{0} - static_cast<UnsignedV>(unsigned_value()));
         }
 
         // TODO: ensure the value fits in the target type
@@ -85,7 +88,9 @@ constexpr UnsignedIntegralAndSign<T> safe_add(const T addend_left,
 {
     if (addend_right < 0)
     {
-        return safe_subtract(addend_left, static_cast<T>(-addend_right));
+        // Negate as unsigned: the magnitude of the smallest value does not fit in a signed type
+        return safe_subtract(
+            addend_left, static_cast<T>(static_cast<T>(0) - static_cast<T>(addend_right)));
     }
 
     return UnsignedIntegralAndSign<T>::create_positive(addend_left + static_cast<T>(addend_right));
-- 
2.43.0


From 89190fefaa5ea1b8e74babc9c4a4b9e016100850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:15 +0000
Subject: [PATCH 26/34] fix: divide_integers_rounding_up of zero and of
 negative dividends

---
 include/fixed_containers/int_math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 1e38aeb..a32d49e 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -100,7 +100,12 @@ template <std::integral T>
 constexpr T divide_integers_rounding_up(const T dividend, const T divisor)
 {
     assert_or_abort(divisor != static_cast<T>(0));
-    return ((dividend - static_cast<T>(1)) / divisor) + static_cast<T>(1);
+    const T quotient = static_cast<T>(dividend / divisor);
+    const T remainder = static_cast<T>(dividend % divisor);
+    const bool was_truncated_downwards =
+        remainder != static_cast<T>(0) &&
+        (remainder > static_cast<T>(0)) == (divisor > static_cast<T>(0));
+    return was_truncated_downwards ? static_cast<T>(quotient + static_cast<T>(1)) : quotient;
 }
 
 }  // namespace fixed_containers::int_math
-- 
2.43.0


From c30a5a477b0b16b2625c7900ee8b1ce344166040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 27/34] fix: integer range iterators at the ends (offset 0,
 order of the reverse end)

---
 .../fixed_containers/integer_range_iterator.hpp    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 7ef6de7..c69f0b2 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -34,6 +34,11 @@ public:
 
     constexpr void advance(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
@@ -47,6 +52,11 @@ public:
     }
     constexpr void recede(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t start_inclusive = integer_range_.start_inclusive();
         assert_or_abort(current_index_ != start_inclusive - 1);
 
@@ -74,7 +84,9 @@ public:
     constexpr auto operator<=>(const IntegerRangeEntryProvider& other) const noexcept
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        return current_index_ <=> other.current_index_;
+        // Shift so that `start - 1` (i.e. the reverse end) is the smallest, even when start is 0
+        const std::size_t shift = std::size_t{1} - integer_range_.start_inclusive();
+        return (current_index_ + shift) <=> (other.current_index_ + shift);
     }
 
     constexpr std::ptrdiff_t operator-(const IntegerRangeEntryProvider& other) const
-- 
2.43.0


From 45be0ba988dff9058db815f1457cc724a18837a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:14 +0000
Subject: [PATCH 28/34] fix: StructView::try_add_paths does not compile

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..107a291 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From a45d4cee5ce2cb5332dfd2919f94ca869bb47713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:41 +0000
Subject: [PATCH 29/34] fix: ordering of optional references to partially or
 weakly ordered types

---
 include/fixed_containers/optional_reference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index 6ab6b24..ff7a113 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
-- 
2.43.0


From f48a525eff780e716338c3f9ae709836aec81754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:16 +0000
Subject: [PATCH 30/34] fix: resize of sequences of move-only elements

---
 include/fixed_containers/fixed_deque.hpp  | 12 +++++++++++-
 include/fixed_containers/fixed_list.hpp   | 12 +++++++++++-
 include/fixed_containers/fixed_vector.hpp | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index ed004db..0d5ea75 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -225,7 +225,17 @@ public:
         size_type count,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        this->resize(count, T{}, loc);
+        check_target_size(count, loc);
+
+        // Construct each new member on its own, `T` does not have to be copyable
+        while (size() < count)
+        {
+            emplace_back(T{});
+        }
+        while (size() > count)
+        {
+            pop_back();
+        }
     }
     constexpr void resize(
         size_type count,
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index e7c0512..9c8678c 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -185,7 +185,17 @@ public:
         size_type count,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        this->resize(count, T{}, loc);
+        check_target_size(count, loc);
+
+        // Construct each new member on its own, `T` does not have to be copyable
+        while (size() < count)
+        {
+            emplace_back(T{});
+        }
+        while (size() > count)
+        {
+            pop_back();
+        }
     }
     constexpr void resize(
         size_type count,
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 73166fc..d44b15d 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -218,7 +218,17 @@ public:
         size_type count,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        this->resize(count, T{}, loc);
+        check_target_size(count, loc);
+
+        // Construct each new member on its own, `T` does not have to be copyable
+        while (size() < count)
+        {
+            emplace_back(T{});
+        }
+        while (size() > count)
+        {
+            pop_back();
+        }
     }
     constexpr void resize(
         size_type count,
-- 
2.43.0


From 1d596db2acc7f083be10b1d1d03d5b4703a751d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:26 +0000
Subject: [PATCH 31/34] fix: emplacing immovable elements at the ends of a
 circular deque

---
 .../fixed_containers/fixed_circular_deque.hpp | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index bb55932..05377d0 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -116,12 +116,16 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
-        if (is_full(deque()))
+        if constexpr (MoveConstructible<value_type>)
         {
-            // `args` can refer to the element that is about to be dropped, so use them first
-            push_back(value_type(std::forward<Args>(args)...));
-            return back();
+            if (is_full(deque()))
+            {
+                // `args` can refer to the element that is about to be dropped, so use them first
+                push_back(value_type(std::forward<Args>(args)...));
+                return back();
+            }
         }
+        pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
 
@@ -154,12 +158,16 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
-        if (is_full(deque()))
+        if constexpr (MoveConstructible<value_type>)
         {
-            // `args` can refer to the element that is about to be dropped, so use them first
-            push_front(value_type(std::forward<Args>(args)...));
-            return front();
+            if (is_full(deque()))
+            {
+                // `args` can refer to the element that is about to be dropped, so use them first
+                push_front(value_type(std::forward<Args>(args)...));
+                return front();
+            }
         }
+        pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From 0f06147e069af9d0ce355dafb7f1765c3065cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 32/34] fix: FixedString::insert of characters that are part of
 the string itself

Like std::string, inserting a view or range of the string's own characters
must insert the characters as they were before the call. They were read
after they had been shifted.
---
 include/fixed_containers/fixed_string.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 81201ad..6faad56 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,6 +7,7 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cctype>
 #include <cstddef>
@@ -257,7 +258,7 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, first, last, loc);
+        return insert_internal(pos, first, last, loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -273,7 +274,7 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        return insert_internal(pos, view.begin(), view.end(), loc);
     }
 
     constexpr iterator erase(
@@ -648,6 +649,22 @@ private:
     }
     constexpr void null_terminate_at_max_length() { null_terminate(MAXIMUM_LENGTH); }
 
+    template <InputIterator InputIt>
+    constexpr iterator insert_internal(const_iterator pos,
+                                       InputIt first,
+                                       InputIt last,
+                                       const std_transition::source_location& loc)
+    {
+        // Like in std::string, the characters to insert can be part of this string. Append them
+        // first, which leaves the existing characters in place, then move them to `pos`.
+        const difference_type offset = pos - vec().cbegin();
+        const auto original_length = static_cast<difference_type>(length());
+        vec().insert(vec().cend(), first, last, loc);
+        const iterator output = vec().begin() + offset;
+        std::rotate(output, vec().begin() + original_length, vec().end());
+        return output;
+    }
+
     [[nodiscard]] constexpr std::string_view as_view() const { return *this; }
 
     [[nodiscard]] constexpr const FixedVecStorage& vec() const
-- 
2.43.0


From 82beca458ef299c532546ebd8b59e39152b57615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:31 +0000
Subject: [PATCH 33/34] fix: transparent lookups of maps and sets with a key
 equivalent to several entries

With a transparent comparator, lower_bound, upper_bound, equal_range and count
have to consider every equivalent entry, like in std::map and std::set. They
only considered the one closest to the root of the tree.
---
 include/fixed_containers/fixed_map.hpp        | 22 +++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 38 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 13 +++----
 3 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index a9d9382..a51518b 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <type_traits>
 
 namespace fixed_containers
@@ -539,7 +540,8 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        const auto [first, last] = equal_range(key);
+        return static_cast<std::size_t>(std::distance(first, last));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -554,15 +556,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_first_node_not_less(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_not_less(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -577,15 +577,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_first_node_greater(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -603,16 +601,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 8fc7cc6..0555c4e 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -327,6 +327,44 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // With a transparent comparator, a key can be equivalent to more than one node
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_node_not_less(const K0& key) const
+    {
+        NodeIndex output = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(tree_storage().key(i), key))
+            {
+                i = tree_storage().right_index(i);
+            }
+            else
+            {
+                output = i;
+                i = tree_storage().left_index(i);
+            }
+        }
+        return output;
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_node_greater(const K0& key) const
+    {
+        NodeIndex output = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(key, tree_storage().key(i)))
+            {
+                output = i;
+                i = tree_storage().left_index(i);
+            }
+            else
+            {
+                i = tree_storage().right_index(i);
+            }
+        }
+        return output;
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 4db1a9d..7ab0dcd 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <type_traits>
 
@@ -338,7 +339,8 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        const auto [first, last] = equal_range(key);
+        return static_cast<std::size_t>(std::distance(first, last));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -349,8 +351,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_not_less(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -361,8 +362,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -376,8 +376,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From 77b35cdf7c91e39a3823e141613f8785f60b9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:20 +0000
Subject: [PATCH 34/34] fix: FixedList of non-trivial elements with an
 overloaded operator& can be copied and moved

---
 BUILD.bazel                                           | 1 +
 include/fixed_containers/fixed_doubly_linked_list.hpp | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BUILD.bazel b/BUILD.bazel
index b3d7a65..885e0bb 100644
--- a/BUILD.bazel
+++ b/BUILD.bazel
@@ -288,6 +288,7 @@ cc_library(
     strip_include_prefix = strip_include_prefix_config(),
     deps = [
         ":fixed_index_based_storage",
+        ":memory",
         ":concepts",
     ]
 )
diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e72ff58..5cbe038 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "fixed_containers/fixed_index_based_storage.hpp"
+#include "fixed_containers/memory.hpp"
 
 #include <array>
 #include <limits>
@@ -208,7 +209,7 @@ public:
         // `chain_`
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), other.at(i));
+            memory::construct_at_address_of(this->at(i), other.at(i));
         }
     }
 
@@ -224,7 +225,7 @@ public:
             other.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_);
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), std::move(other.at(i)));
+            memory::construct_at_address_of(this->at(i), std::move(other.at(i)));
         }
     }
 
-- 
2.43.0

