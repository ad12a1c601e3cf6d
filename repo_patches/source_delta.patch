From 58feffe6874c4054884cbea4c5a303fb611de316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 1/9] fix: order equal reverse iterators consistently

operator< on reverse iterators negated the forward comparison, so a < a was
true and a <= a was false. Swap the operands instead.
---
 include/bpptree/detail/iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..4041409 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,7 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        return reverse ? rhs.iter + 1 < iter + 1 : iter + 1 < rhs.iter + 1;
     }
 
     template <typename RHS>
-- 
2.43.0


From 6036e110729ad7c6c6b852440fa0b3b8848baab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 2/9] fix: Persistent::insert with a reverse iterator inserts
 where Transient::insert does

Transient::insert steps a reverse iterator before inserting; Persistent::insert
did not, so it inserted one position off and indexed out of the tree for rend().
---
 include/bpptree/bpptree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..0cf73ae 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -362,7 +362,11 @@ public:
         template <typename It, typename... Args>
         [[nodiscard]] Persistent insert(It const& it, Args&&... args) const {
             auto transient = this->self().transient();
-            transient.insert2(it.iter, std::forward<Args>(args)...);
+            if constexpr (It::is_reversed) {
+                transient.insert2((it - 1).iter, std::forward<Args>(args)...);
+            } else {
+                transient.insert2(it.iter, std::forward<Args>(args)...);
+            }
             return std::move(transient).persistent();
         }
 
-- 
2.43.0


From 66c9f0294ff4807ad9f4324847a5ca375a5af823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 3/9] fix: copying a Transient tree no longer shares mutable
 nodes with the original

The implicit copy operations shared nodes without marking them copy on write, so
modifying either tree changed (and corrupted the metadata of) the other.
---
 include/bpptree/bpptree.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 0cf73ae..ebe0a3c 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,28 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy shares all of its nodes with the original, so they must be marked copy on write
+        Transient(Transient const& other) : Parent(static_cast<Parent const&>(other)) {
+            this->self().dispatch([](auto&, auto& root) {
+                root->make_persistent();
+            });
+        }
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default; //NOLINT
+
+        Transient& operator=(Transient const& other) {
+            if (this != &other) {
+                *this = Transient(other);
+            }
+            return *this;
+        }
+
+        Transient& operator=(Transient&& other) = default; //NOLINT
+
+        ~Transient() = default;
+
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From e7fbd8a72cb44fa21fa0762bfc7b58b3d874740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 4/9] fix: construct the new element before moving elements or
 computing metadata

Inserting or assigning from a reference to an element of the same tree read the
element after it had been moved or destroyed, and arguments that convert to the
value type were folded into min/max/sum metadata unconverted.
---
 include/bpptree/detail/leafnodebase.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..b5ac38e 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -148,28 +148,31 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        // args may refer to elements of this tree or convert to Value, so the new element must be constructed before any
+        // elements are moved and before the metadata is computed
+        Value value(std::forward<Args>(args)...);
         ++size;
         if (this->length != leaf_size) {
             set_index(iter, index);
             ReplaceType replace{};
-            compute_delta_insert(index, replace.delta, args...);
+            compute_delta_insert(index, replace.delta, value);
             if (this->persistent) {
                 replace.delta.ptr = make_ptr<NodeType>();
                 replace.delta.ptr_changed = true;
-                insert_no_split(*replace.delta.ptr, index, std::forward<Args>(args)...);
+                insert_no_split(*replace.delta.ptr, index, std::move(value));
                 do_replace(replace);
             } else {
-                insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                insert_no_split(this->self(), index, std::move(value));
                 do_replace(replace);
             }
         } else {
             auto right = make_ptr<NodeType>();
             if (this->persistent) {
                 NodePtr<NodeType> left = make_ptr<NodeType>();
-                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
@@ -183,16 +186,18 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename... Args>
     void assign2(IndexType index, R&& do_replace, uint64_t& iter, Args&&... args) {
+        // see comment in insert_index
+        Value value(std::forward<Args>(args)...);
         set_index(iter, index);
         ReplaceType replace{};
-        compute_delta_set(index, replace.delta, args...);
+        compute_delta_set(index, replace.delta, value);
         if (this->persistent) {
             replace.delta.ptr = make_ptr<NodeType>(this->self());
             replace.delta.ptr_changed = true;
-            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::forward<Args>(args)...);
+            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::move(value));
             do_replace(replace);
         } else {
-            values.emplace_unchecked(index, std::forward<Args>(args)...);
+            values.emplace_unchecked(index, std::move(value));
             do_replace(replace);
         }
     }
-- 
2.43.0


From 9fb21ea453433b09e52101643912f0d3fabc120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 5/9] fix: do not write to leaf nodes that are already shared
 copy on write

Making a tree persistent stored to the copy on write flag of every leaf below a
modified node, including leaves shared with persistent trees on other threads.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index b5ac38e..1d548ea 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -278,7 +278,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // leaf might be shared with other threads if it is already persistent, in which case it must not be written to
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From 9d5286ce5e62c28ec5ca62311ee6458e8dee5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 6/9] fix: reject every empty range passed to min/max when
 safety checks are enabled

Only empty ranges that began and ended inside one leaf were detected; any other
empty range read outside the range or outside the tree.
---
 include/bpptree/detail/minmax2.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bpptree/detail/minmax2.ipp b/include/bpptree/detail/minmax2.ipp
index 1bf721b..7019b1a 100644
--- a/include/bpptree/detail/minmax2.ipp
+++ b/include/bpptree/detail/minmax2.ipp
@@ -18,6 +18,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename It>
 typename BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::KeyRef BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_MINMAX(const It& begin, const It& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     return this->self().dispatch(
             [&begin, &end](auto const& root) -> decltype(auto) {
                 if constexpr (It::is_reversed) {
@@ -42,6 +47,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename OutIt, typename InIt>
 void BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_CONCAT(seek_, BPPTREE_MINMAX)(OutIt& out, const InIt& begin, const InIt& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     this->self().dispatch(
             [&out, &begin, &end](auto const& root) {
                 if constexpr (InIt::is_reversed) {
-- 
2.43.0


From fdbd462cddfe1d69622cd7bba49675e2c50c5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 7/9] fix: inserting past the maximum depth leaves the tree
 unchanged

With safety checks enabled the exception was thrown after the full leaf (and its
ancestors) had been split in place, which lost elements and corrupted the size
and metadata. Check that a split can be absorbed before modifying anything.
---
 include/bpptree/detail/internalnodebase.hpp | 4 ++++
 include/bpptree/detail/leafnodebase.hpp     | 7 +++++++
 include/bpptree/detail/modify.hpp           | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/include/bpptree/detail/internalnodebase.hpp b/include/bpptree/detail/internalnodebase.hpp
index 56ec30a..5982c15 100644
--- a/include/bpptree/detail/internalnodebase.hpp
+++ b/include/bpptree/detail/internalnodebase.hpp
@@ -306,6 +306,10 @@ struct InternalNodeBase : public Parent {
         DoSplit(typename Parent::SelfType& self, IndexType index, R& do_replace, S& do_split, uint64_t& iter, bool right_most) :
                 self(self), index(index), do_replace(do_replace), do_split(do_split), iter(iter), right_most(right_most) {}
 
+        [[nodiscard]] bool can_split() const {
+            return self.length != internal_size || do_split.can_split();
+        }
+
         template <typename T>
         void operator()(T&& split) {
             self.insert_split(index, split, do_replace, do_split, iter, right_most);
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 1d548ea..40e1d60 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <stdexcept>
 #include "uninitialized_array.hpp"
 #include "common.hpp"
 
@@ -148,6 +149,12 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+#ifdef BPPTREE_SAFETY_CHECKS
+        // has to be checked before any node is modified
+        if (this->length == leaf_size && !do_split.can_split()) {
+            throw std::logic_error("maximum depth exceeded");
+        }
+#endif
         // args may refer to elements of this tree or convert to Value, so the new element must be constructed before any
         // elements are moved and before the metadata is computed
         Value value(std::forward<Args>(args)...);
diff --git a/include/bpptree/detail/modify.hpp b/include/bpptree/detail/modify.hpp
index c43b772..642e8b2 100644
--- a/include/bpptree/detail/modify.hpp
+++ b/include/bpptree/detail/modify.hpp
@@ -67,6 +67,10 @@ struct ModifyTypes {
 
         DoSplit(TreeType& tree, NodePtr<NodeType>& root, uint64_t& iter) : tree(tree), root(root), iter(iter) {}
 
+        [[nodiscard]] static constexpr bool can_split() {
+            return NodeType::depth < max_depth;
+        }
+
         template <typename SplitType>
         void operator()([[maybe_unused]] SplitType&& split) {
             if constexpr (NodeType::depth < max_depth) {
-- 
2.43.0


From 6c4113918a2772cacf99889dd91caeffec4f5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 8/9] fix: pop_back erases the last element rather than the
 slot after it

---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index ebe0a3c..d3f4960 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -344,7 +344,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_last_element, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..2a3cc26 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// find_last is the position after the last element, find_last_element is the last element itself
+inline constexpr auto find_last_element = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From 8061abc03deab21a2f2c5cb2da502bb351fbe5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:01 +0000
Subject: [PATCH 9/9] fix: options of BppTreeMap, BppTreeSet and BppTreeVector
 keep disable_exceptions

---
 include/bpptree/indexed.hpp |  8 ++++----
 include/bpptree/ordered.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 6f1b971..bea62cb 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -323,16 +323,16 @@ template <
 struct BppTreeVector {
 
     template <typename T>
-    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index e905b32..280f89d 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -421,19 +421,19 @@ template <
 struct BppTreeMap {
 
     template <typename T>
-    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
@@ -467,19 +467,19 @@ template <
 struct BppTreeSet {
 
     template <typename T>
-    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
-- 
2.43.0

