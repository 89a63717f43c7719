From 712db1f779ded903b7cb228f2e984830031dc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 01/52] fix: end iterator of a bitset whose size is a multiple
 of the block size

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..71a67fe 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -276,8 +276,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +304,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
-- 
2.43.0


From bd02c77361617284cb747c7e6985737b19565b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 02/52] fix: bitset iterator decrement across a block boundary

---
 include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..65f6d28 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1;
         }
         else
         {
-- 
2.43.0


From bf6b490800a146eb6e42b393dec0df834980b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 03/52] fix: unsigned wrap-around when nothing is inserted at
 the front of a bitset

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 71a67fe..1de009f 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -557,9 +557,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -589,9 +589,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
-- 
2.43.0


From 3d0141e6a0ada8183d4e8838b35b9841ac73cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 04/52] fix: insertion in an empty bitset which has no storage
 yet

---
 include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 1de009f..fda25bf 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -546,7 +546,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -577,7 +577,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
-- 
2.43.0


From 1f480c27452a038e9ff2e503aff6e718878d1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 05/52] fix: a bitset view does not write the bits beyond its
 end

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index fda25bf..628182a 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -154,6 +154,12 @@ namespace sparrow
 
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
+        // The bits following the last one in a block belong to whoever owns the memory,
+        // a bitset which cannot be resized must not touch them.
+        static constexpr bool s_can_resize = requires(storage_type_without_cvrefpointer& b, size_type n) {
+            b.resize(n);
+        };
+
         constexpr void zero_unused_bits();
         constexpr void update_null_count(bool old_value, bool new_value);
 
@@ -382,7 +388,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (s_can_resize && !std::is_const_v<block_type>)
         {
             zero_unused_bits();
         }
@@ -397,7 +403,10 @@ namespace sparrow
     {
         if constexpr (!std::is_const_v<block_type>)
         {
-            zero_unused_bits();
+            if constexpr (s_can_resize)
+            {
+                zero_unused_bits();
+            }
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
-- 
2.43.0


From 6863d5cf205d056070a8bf6f9b67ff892e9604b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 06/52] fix: erasing an empty range of an array is a no-op

---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..f8faa53 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -333,7 +333,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(this->cbegin() <= first)
         SPARROW_ASSERT_TRUE(last <= this->cend());
         const difference_type first_index = std::distance(this->cbegin(), first);
-- 
2.43.0


From 5ffa90e0f471788ffdab162d0f86bf73d4653a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 07/52] fix: resizing an array with a null appends nulls

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..b3ec2ed 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index f8faa53..254e702 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
-- 
2.43.0


From f0278802f9437ab82999dfebe147d2bec216c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 08/52] fix: bitmap insertion and erasure of a proxy take its
 offset into account

---
 include/sparrow/arrow_array_schema_proxy.hpp | 9 +++++++--
 src/arrow_array_schema_proxy.cpp             | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..2903fad 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,8 +477,13 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(
+            sparrow::next(bitmap.cbegin(), index + offset()),
+            range.begin(),
+            range.end()
+        );
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..c0e18fb 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -762,9 +762,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -782,7 +782,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From 4178272118b5f9d40daec6333376d2bf99b96a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 09/52] fix: offset and null count of the slice of an array
 which has an offset

---
 src/arrow_array_schema_proxy.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index c0e18fb..628cb62 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -500,8 +500,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -512,8 +512,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
@@ -678,14 +678,19 @@ namespace sparrow
 
     void arrow_proxy::update_null_count()
     {
-        if(has_bitmap(data_type()))
+        const auto type = data_type();
+        if (type == sparrow::data_type::NA)
+        {
+            array().null_count = array().length;
+        }
+        else if (has_bitmap(type))
         {
+            // Only the bits in [offset, offset + length) describe elements of the array
             const auto& validity_buffer = buffers().front();
             const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
+            array().null_count = static_cast<int64_t>(bitmap.null_count() - skipped.null_count());
         }
-        
     }
 
     bool arrow_proxy::is_arrow_array_valid() const
@@ -815,8 +820,10 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
-        copy.set_length(end - start);
+        copy.array().offset = static_cast<int64_t>(offset() + start);
+        copy.array().length = static_cast<int64_t>(end - start);
+        copy.update_buffers();
+        copy.update_null_count();
         return copy;
     }
 
@@ -826,9 +833,11 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy view{std::move(ar), std::move(as)};
+        view.update_null_count();
+        return view;
     }
 }
-- 
2.43.0


From ce8cf350fff9de9ca0f71ff809b2c95587a459ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 10/52] fix: memory of dictionaries and of children moved out
 of their parent is freed on release

---
 .../arrow_array_schema_utils.hpp              | 34 +++++++++++++++----
 src/arrow_array_schema_proxy.cpp              | 24 +++++++++++--
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..6caaeac 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,8 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        // Whether the memory of the dictionary structure belongs to the parent
+        bool m_dictionary_ownership = true;
     };
 
     /**
@@ -173,6 +178,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary_ownership = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary_ownership;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -182,12 +197,19 @@ namespace sparrow
             return;
         }
         
+        const children_ownership* own = static_cast<const children_ownership*>(t.private_data);
+
         if (t.dictionary)
         {
             if (t.dictionary->release)
             {
                 t.dictionary->release(t.dictionary);
             }
+            if (own != nullptr && own->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +219,16 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(own != nullptr);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        // A child which has been moved out is already released, but
+                        // the structure itself still belongs to its parent.
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 628cb62..f5717de 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -590,17 +590,37 @@ namespace sparrow
             );
         }
 
+        auto* array_private_data = get_array_private_data();
+        auto* schema_private_data = get_schema_private_data();
         if (array().dictionary != nullptr)
         {
-            array().dictionary->release(array().dictionary);
+            if (array().dictionary->release != nullptr)
+            {
+                array().dictionary->release(array().dictionary);
+            }
+            if (array_private_data->has_dictionary_ownership())
+            {
+                delete array().dictionary;
+            }
         }
         if (schema().dictionary != nullptr)
         {
-            schema().dictionary->release(schema().dictionary);
+            if (schema().dictionary->release != nullptr)
+            {
+                schema().dictionary->release(schema().dictionary);
+            }
+            if (schema_private_data->has_dictionary_ownership())
+            {
+                delete schema().dictionary;
+            }
         }
 
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
+        // The content of the dictionary will be released with the array, but the memory of
+        // the structures themselves belongs to the caller.
+        array_private_data->set_dictionary_ownership(false);
+        schema_private_data->set_dictionary_ownership(false);
         update_dictionary();
     }
 
-- 
2.43.0


From 7f6884a4e8c392f43584910eb464a219ba2dab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 11/52] fix: no leak when the copy of an ArrowArray or
 ArrowSchema throws

---
 src/arrow_interface/arrow_array.cpp  | 66 ++++++++++++++++------------
 src/arrow_interface/arrow_schema.cpp | 57 ++++++++++++++----------
 2 files changed, 74 insertions(+), 49 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..9d512b6 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -202,30 +202,6 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(source_array.n_children == source_schema.n_children);
         SPARROW_ASSERT_TRUE((source_array.dictionary == nullptr) == (source_schema.dictionary == nullptr));
 
-        target.n_children = source_array.n_children;
-        if (source_array.n_children > 0)
-        {
-            target.children = new ArrowArray*[static_cast<std::size_t>(source_array.n_children)];
-            for (int64_t i = 0; i < source_array.n_children; ++i)
-            {
-                SPARROW_ASSERT_TRUE(source_array.children[i] != nullptr);
-                target.children[i] = new ArrowArray{};
-                copy_array(*source_array.children[i], *source_schema.children[i], *target.children[i]);
-            }
-        }
-
-        if (source_array.dictionary != nullptr)
-        {
-            target.dictionary = new ArrowArray{};
-            copy_array(*source_array.dictionary, *source_schema.dictionary, *target.dictionary);
-        }
-
-        target.length = source_array.length;
-        target.null_count = source_array.null_count;
-        target.offset = source_array.offset;
-        target.n_buffers = source_array.n_buffers;
-
-
         std::vector<buffer<std::uint8_t>> buffers_copy;
         buffers_copy.reserve(static_cast<std::size_t>(source_array.n_buffers));
         const auto buffers = get_arrow_array_buffers(source_array, source_schema);
@@ -234,13 +210,49 @@ namespace sparrow
         {
             buffers_copy.emplace_back(buffer);
         }
-        target.private_data = new arrow_array_private_data(
+        const auto private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-            static_cast<std::size_t>(target.n_children)
+            static_cast<std::size_t>(source_array.n_children)
         );
-        const auto private_data = static_cast<arrow_array_private_data*>(target.private_data);
+
+        // From now on, target can be released even if its copy is not complete
+        target.length = source_array.length;
+        target.null_count = source_array.null_count;
+        target.offset = source_array.offset;
+        target.n_buffers = source_array.n_buffers;
+        target.n_children = 0;
         target.buffers = private_data->buffers_ptrs<void>();
+        target.children = nullptr;
+        target.dictionary = nullptr;
+        target.private_data = private_data;
         target.release = release_arrow_array;
+
+        try
+        {
+            if (source_array.n_children > 0)
+            {
+                target.children = new ArrowArray*[static_cast<std::size_t>(source_array.n_children)]();
+                target.n_children = source_array.n_children;
+                for (int64_t i = 0; i < source_array.n_children; ++i)
+                {
+                    SPARROW_ASSERT_TRUE(source_array.children[i] != nullptr);
+                    target.children[i] = new ArrowArray{};
+                    copy_array(*source_array.children[i], *source_schema.children[i], *target.children[i]);
+                }
+            }
+
+            if (source_array.dictionary != nullptr)
+            {
+                target.dictionary = new ArrowArray{};
+                copy_array(*source_array.dictionary, *source_schema.dictionary, *target.dictionary);
+            }
+        }
+        catch (...)
+        {
+            release_arrow_array(&target);
+            target = {};
+            throw;
+        }
     }
 
 
diff --git a/src/arrow_interface/arrow_schema.cpp b/src/arrow_interface/arrow_schema.cpp
index dcf587c..df02f68 100644
--- a/src/arrow_interface/arrow_schema.cpp
+++ b/src/arrow_interface/arrow_schema.cpp
@@ -43,36 +43,49 @@ namespace sparrow
     void copy_schema(const ArrowSchema& source, ArrowSchema& target)
     {
         SPARROW_ASSERT_TRUE(&source != &target);
-        target.flags = source.flags;
-        target.n_children = source.n_children;
-        if (source.n_children > 0)
-        {
-            target.children = new ArrowSchema*[static_cast<std::size_t>(source.n_children)];
-            for (int64_t i = 0; i < source.n_children; ++i)
-            {
-                SPARROW_ASSERT_TRUE(source.children[i] != nullptr);
-                target.children[i] = new ArrowSchema{};
-                copy_schema(*source.children[i], *target.children[i]);
-            }
-        }
-
-        if (source.dictionary != nullptr)
-        {
-            target.dictionary = new ArrowSchema{};
-            copy_schema(*source.dictionary, *target.dictionary);
-        }
-
-        target.private_data = new arrow_schema_private_data(
+        auto* private_data = new arrow_schema_private_data(
             source.format,
             source.name,
             source.metadata,
-            static_cast<std::size_t>(target.n_children)
+            static_cast<std::size_t>(source.n_children)
         );
-        auto* private_data = static_cast<arrow_schema_private_data*>(target.private_data);
+
+        // From now on, target can be released even if its copy is not complete
         target.format = private_data->format_ptr();
         target.name = private_data->name_ptr();
         target.metadata = private_data->metadata_ptr();
+        target.flags = source.flags;
+        target.n_children = 0;
+        target.children = nullptr;
+        target.dictionary = nullptr;
+        target.private_data = private_data;
         target.release = release_arrow_schema;
+
+        try
+        {
+            if (source.n_children > 0)
+            {
+                target.children = new ArrowSchema*[static_cast<std::size_t>(source.n_children)]();
+                target.n_children = source.n_children;
+                for (int64_t i = 0; i < source.n_children; ++i)
+                {
+                    SPARROW_ASSERT_TRUE(source.children[i] != nullptr);
+                    target.children[i] = new ArrowSchema{};
+                    copy_schema(*source.children[i], *target.children[i]);
+                }
+            }
+
+            if (source.dictionary != nullptr)
+            {
+                target.dictionary = new ArrowSchema{};
+                copy_schema(*source.dictionary, *target.dictionary);
+            }
+        }
+        catch (...)
+        {
+            release_arrow_schema(&target);
+            throw;
+        }
     }
 
 }
-- 
2.43.0


From d2da42873abbf0f98cd7ce81cb9e8a1dcd778cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 12/52] fix: structures owned by a proxy are released when its
 construction throws

---
 src/arrow_array_schema_proxy.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index f5717de..88dd943 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -102,9 +102,10 @@ namespace sparrow
         requires std::same_as<std::remove_pointer_t<std::remove_cvref_t<AA>>, ArrowArray>
                      && std::same_as<std::remove_pointer_t<std::remove_cvref_t<AS>>, ArrowSchema>
     arrow_proxy::arrow_proxy(AA&& array, AS&& schema, impl_tag)
-        : m_array(std::forward<AA>(array))
-        , m_schema(std::forward<AS>(schema))
+        : arrow_proxy()  // The owned structures are released if an exception is thrown below
     {
+        m_array = std::forward<AA>(array);
+        m_schema = std::forward<AS>(schema);
         if constexpr (std::is_rvalue_reference_v<AA&&>)
         {
             array = {};
@@ -145,6 +146,7 @@ namespace sparrow
     }
 
     arrow_proxy::arrow_proxy(const arrow_proxy& other)
+        : arrow_proxy()  // The copies are released if an exception is thrown below
     {
         if (!other.empty())
         {
@@ -155,11 +157,6 @@ namespace sparrow
             update_children();
             update_dictionary();
         }
-        else
-        {
-            m_array = nullptr;
-            m_schema = nullptr;
-        }
     }
 
     arrow_proxy& arrow_proxy::operator=(const arrow_proxy& other)
-- 
2.43.0


From 8f38283b24b1cc56e8a0c5a35caf7c2cee0043c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 13/52] fix: the copy of an array without validity bitmap is
 mutable

---
 src/arrow_interface/arrow_array.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 9d512b6..c480ae1 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -15,6 +15,7 @@
 #include "sparrow/arrow_interface/arrow_array.hpp"
 
 #include "sparrow/arrow_interface/arrow_array_schema_info_utils.hpp"
+#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
 #include "sparrow/types/data_type.hpp"
 
 namespace sparrow
@@ -210,6 +211,14 @@ namespace sparrow
         {
             buffers_copy.emplace_back(buffer);
         }
+        // A validity bitmap can be omitted when there are no nulls. The copy is mutable,
+        // it needs an actual bitmap.
+        const auto size = static_cast<std::size_t>(source_array.length + source_array.offset);
+        if (size != 0 && has_bitmap(format_to_data_type(source_schema.format))
+            && source_array.buffers[0] == nullptr)
+        {
+            buffers_copy[0] = dynamic_bitset<std::uint8_t>(size, true).extract_storage();
+        }
         const auto private_data = new arrow_array_private_data(
             std::move(buffers_copy),
             static_cast<std::size_t>(source_array.n_children)
-- 
2.43.0


From 2f1238fe78879911eadaf7efcdff18bcb5407a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 14/52] fix: extraction of the structures of an array which
 does not own its schema leaves it unchanged

---
 include/sparrow/array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sparrow/array.hpp b/include/sparrow/array.hpp
index 1766e5c..e3fbd0e 100644
--- a/include/sparrow/array.hpp
+++ b/include/sparrow/array.hpp
@@ -91,6 +91,11 @@ namespace sparrow
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a)
     {
         arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
+        // Nothing must be extracted if one of the structures cannot be
+        if (!proxy.owns_array() || !proxy.owns_schema())
+        {
+            throw std::runtime_error("cannot extract Arrow structures not owned by the array");
+        }
         return std::make_pair(proxy.extract_array(), proxy.extract_schema());
     }
 }
-- 
2.43.0


From 364743807c14017b17e0ca1af1dc614ae82eee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 15/52] fix: growing a slice does not bring back what follows
 it, mutation of an array whose bitmap is omitted

---
 include/sparrow/layout/primitive_array.hpp |  8 ++++++--
 src/arrow_array_schema_proxy.cpp           | 13 +++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..8f4f476 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -416,8 +416,12 @@ namespace sparrow
     template <class T>
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
-        const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        const size_t offset = static_cast<size_t>(this->get_arrow_proxy().offset());
+        auto data_buffer = get_data_buffer();
+        // The buffer of a slice holds the values that follow the slice, they must not reappear
+        // when the array grows.
+        data_buffer.resize(std::min(this->size(), new_length) + offset);
+        data_buffer.resize(new_length + offset, value);
     }
 
     template <class T>
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 88dd943..f26d5f9 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -21,6 +21,7 @@
 #include "sparrow/arrow_interface/arrow_flag_utils.hpp"
 #include "sparrow/arrow_interface/arrow_schema.hpp"
 #include "sparrow/arrow_interface/arrow_schema/private_data.hpp"
+#include "sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp"
 #include "sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp"
 #include "sparrow/utils/contracts.hpp"
 
@@ -752,6 +753,18 @@ namespace sparrow
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
         const size_t current_size = length() + offset();
+        if (bitmap_buffer.data() == nullptr && current_size != 0)
+        {
+            // No bitmap means that no element is null
+            bitmap_buffer = dynamic_bitset<uint8_t>(current_size, true).extract_storage();
+        }
+        // The buffer of a slice holds the bits of the elements that follow the slice, they
+        // must not reappear when the bitmap grows.
+        const size_t block_count = (current_size + 7) / 8;
+        if (bitmap_buffer.size() > block_count)
+        {
+            bitmap_buffer.resize(block_count);
+        }
         non_owning_dynamic_bitset<uint8_t> bitmap{&bitmap_buffer, current_size};
         return bitmap;
     }
-- 
2.43.0


From abdd992bee83177061762c6f368117ec023a94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 16/52] fix: null count of an array whose elements have been
 assigned

---
 include/sparrow/layout/mutable_array_base.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index 254e702..afa0271 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -179,6 +179,10 @@ namespace sparrow
         bitmap_iterator bitmap_begin();
         bitmap_iterator bitmap_end();
 
+        // The validity of an element may be changed through the mutable references and
+        // iterators, the null count must then be considered as not computed.
+        void invalidate_null_count();
+
         friend class layout_iterator<iterator_types>;
     };
 
@@ -198,6 +202,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::begin() -> iterator
     {
+        invalidate_null_count();
         return iterator(this->derived_cast().value_begin(), this->derived_cast().bitmap_begin());
     }
 
@@ -220,6 +225,7 @@ namespace sparrow
     auto mutable_array_base<D>::operator[](size_type i) -> reference
     {
         SPARROW_ASSERT_TRUE(i < this->size());
+        invalidate_null_count();
         return reference(inner_reference(this->derived_cast().value(i)), this->derived_cast().has_value(i));
     }
 
@@ -230,6 +236,16 @@ namespace sparrow
         return *sparrow::next(bitmap_begin(), i);
     }
 
+    template <class D>
+    void mutable_array_base<D>::invalidate_null_count()
+    {
+        auto& proxy = this->get_arrow_proxy();
+        if (proxy.is_created_with_sparrow())
+        {
+            proxy.set_null_count(-1);
+        }
+    }
+
     template <class D>
     auto mutable_array_base<D>::bitmap_begin() -> bitmap_iterator
     {
-- 
2.43.0


From 286e59a0759d0004d1ba83b5db674329d69f3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 17/52] fix: buffer::pop_back and the move constructor with an
 allocator do not compile

---
 include/sparrow/buffer/buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..ea08399 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
@@ -910,8 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
-        --get_data().p_end;
+        erase_at_end(get_data().p_end - 1);
     }
 
     template <class T>
-- 
2.43.0


From f78dd28080426e03badbd1ef62a8c0d9df95c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 18/52] fix: erasing an empty range of a buffer is a no-op

---
 include/sparrow/buffer/buffer.hpp         | 6 +++++-
 include/sparrow/buffer/buffer_adaptor.hpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index ea08399..fa023ad 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -884,12 +884,16 @@ namespace sparrow
     template <class T>
     constexpr auto buffer<T>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(last <= cend());
         const difference_type offset = std::distance(cbegin(), first);
         const difference_type len = std::distance(first, last);
         pointer p = get_data().p_begin + offset;
+        if (len == 0)
+        {
+            return iterator(p);
+        }
         erase_at_end(std::move(p + len, get_data().p_end, p));
         return iterator(p);
     }
diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..1c2038b 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -564,7 +564,7 @@ namespace sparrow
         const difference_type index_first = std::distance(cbegin(), first);
         const difference_type index_last = std::distance(cbegin(), last);
         const auto idx_for_buffer_first = index_for_buffer(static_cast<size_type>(index_first));
-        SPARROW_ASSERT_TRUE(idx_for_buffer_first < m_buffer.size());
+        SPARROW_ASSERT_TRUE(idx_for_buffer_first <= m_buffer.size());
         const auto idx_for_buffer_last = index_for_buffer(static_cast<size_type>(index_last));
         SPARROW_ASSERT_TRUE(idx_for_buffer_last <= m_buffer.size());
         m_buffer.erase(
-- 
2.43.0


From 0687b8917a2f0651787d96b23e1f21cac836e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 19/52] fix: insertion in a buffer constructs each element
 once, and accepts its own elements

---
 include/sparrow/buffer/buffer.hpp | 61 ++++++++-----------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index fa023ad..c5669a7 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -785,51 +785,27 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
-            reserve_with_growth_factor( size() + count);
-            const iterator it = std::next(begin(), offset);
-            std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
-            get_data().p_end += count;
+            const T copy(value);  // value may be an element of this buffer
+            const auto old_size = static_cast<difference_type>(size());
+            reserve_with_growth_factor(size() + count);
+            get_data().p_end = fill_initialize(get_data().p_end, count, copy, get_allocator());
+            std::rotate(std::next(begin(), offset), std::next(begin(), old_size), end());
         }
         return std::next(begin(), offset);
     }
 
-    template <typename T>
-    struct is_move_iterator : std::false_type
-    {
-    };
-
-    template <typename Iterator>
-    struct is_move_iterator<std::move_iterator<Iterator>> : std::true_type
-    {
-    };
-
-    template <typename T>
-    constexpr bool is_move_iterator_v = is_move_iterator<T>::value;
-
     template <class T>
     template <mpl::iterator_of_type<T> InputIt>
     constexpr auto buffer<T>::insert(const_iterator pos, InputIt first, InputIt last) -> iterator
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos && pos <= cend());
         const difference_type num_elements = std::distance(first, last);
-        const size_type new_size = size() + static_cast<size_type>(num_elements);
         const difference_type offset = std::distance(cbegin(), pos);
-        const size_type old_size = size();
-        reserve_with_growth_factor(new_size);
-        resize(new_size);
-        const iterator new_pos = std::next(begin(), offset);
-        const iterator end_it = std::next(begin(), static_cast<difference_type>(old_size));
-        std::move_backward(new_pos, end_it, end());
-        if constexpr (is_move_iterator_v<InputIt>)
-        {
-            std::uninitialized_move(first, last, new_pos);
-        }
-        else
-        {
-            std::uninitialized_copy(first, last, new_pos);
-        }
-        return new_pos;
+        const auto old_size = static_cast<difference_type>(size());
+        reserve_with_growth_factor(size() + static_cast<size_type>(num_elements));
+        get_data().p_end = copy_initialize(first, last, get_data().p_end, get_allocator());
+        std::rotate(std::next(begin(), offset), std::next(begin(), old_size), end());
+        return std::next(begin(), offset);
     }
 
     template <class T>
@@ -857,20 +833,13 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
+        T value(std::forward<Args>(args)...);  // The arguments may refer to elements of this buffer
         reserve_with_growth_factor(size() + 1);
-        pointer p = get_data().p_begin + offset;
-        if (p != get_data().p_end)
-        {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
-            std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
-        }
-        else
-        {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
-        }
+        alloc_traits::construct(get_allocator(), get_data().p_end, std::move(value));
         ++get_data().p_end;
-        return iterator(p);
+        const iterator it = std::next(begin(), offset);
+        std::rotate(it, std::prev(end()), end());
+        return it;
     }
 
     template <class T>
-- 
2.43.0


From f43f86bd8411672a4fc1a8ef214fea526cf3d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 20/52] fix: elements already built are destroyed when the
 construction of one of them throws in a buffer

---
 include/sparrow/buffer/buffer.hpp | 36 +++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index c5669a7..99c8088 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -1013,9 +1013,17 @@ namespace sparrow
     constexpr auto buffer<T>::default_initialize(pointer begin, size_type n, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; n > 0; --n, ++current)
+        try
         {
-            alloc_traits::construct(a, current);
+            for (; n > 0; --n, ++current)
+            {
+                alloc_traits::construct(a, current);
+            }
+        }
+        catch (...)
+        {
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
@@ -1025,9 +1033,17 @@ namespace sparrow
     buffer<T>::fill_initialize(pointer begin, size_type n, const value_type& v, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; n > 0; --n, ++current)
+        try
         {
-            alloc_traits::construct(a, current, v);
+            for (; n > 0; --n, ++current)
+            {
+                alloc_traits::construct(a, current, v);
+            }
+        }
+        catch (...)
+        {
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
@@ -1037,9 +1053,17 @@ namespace sparrow
     constexpr auto buffer<T>::copy_initialize(It first, It last, pointer begin, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; first != last; ++first, ++current)
+        try
+        {
+            for (; first != last; ++first, ++current)
+            {
+                alloc_traits::construct(a, current, *first);
+            }
+        }
+        catch (...)
         {
-            alloc_traits::construct(a, current, *first);
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
-- 
2.43.0


From f42d6bf7a5d3d38d006def4b5290b78ab8b482b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 21/52] fix: null dereference when a buffer with a custom
 allocator has been moved

---
 include/sparrow/buffer/allocator.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index a0dc13a..d3e1483 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -70,7 +70,7 @@ namespace sparrow
 
         any_allocator();
         any_allocator(const any_allocator& rhs);
-        any_allocator(any_allocator&&) = default;
+        any_allocator(any_allocator&& rhs) noexcept;
 
         any_allocator& operator=(const any_allocator& rhs) = delete;
         any_allocator& operator=(any_allocator&& rhs) = delete;
@@ -207,6 +207,17 @@ namespace sparrow
     {
     }
 
+    template <class T>
+    any_allocator<T>::any_allocator(any_allocator&& rhs) noexcept
+        : m_storage(std::move(rhs.m_storage))
+    {
+        // The moved-from allocator must still be usable
+        if (std::holds_alternative<std::unique_ptr<interface>>(rhs.m_storage))
+        {
+            rhs.m_storage = std::allocator<T>();
+        }
+    }
+
     template <class T>
     [[nodiscard]] T* any_allocator<T>::allocate(std::size_t n)
     {
-- 
2.43.0


From d64d420dd2546859fed500d84630e7a21fe86b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 22/52] fix: resizing a buffer or inserting in an adaptor with
 one of its own elements

---
 include/sparrow/buffer/buffer.hpp         |  5 +++--
 include/sparrow/buffer/buffer_adaptor.hpp | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 99c8088..8d63034 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -901,11 +901,12 @@ namespace sparrow
     template <class T>
     constexpr void buffer<T>::resize(size_type new_size, const value_type& value)
     {
+        const value_type copy(value);  // value may be an element of this buffer
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            [this, &copy](size_type nb_init)
             {
-                get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
+                get_data().p_end = fill_initialize(get_data().p_end, nb_init, copy, get_allocator());
             }
         );
     }
diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index 1c2038b..ceb3f93 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -460,8 +460,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy(value);  // value may be an element of the buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = copy;
         return std::next(begin(), index);
     }
 
@@ -475,10 +476,11 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy(value);  // value may be an element of the buffer
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +523,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type value(std::forward<Args>(args)...);  // args may refer to elements of the buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = value;
         return std::next(begin(), index);
     }
 
@@ -610,10 +613,11 @@ namespace sparrow
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
         );
+        const value_type copy(value);  // value may be an element of the buffer
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = copy;
         }
     }
 
-- 
2.43.0


From 5c648ff7df0a9b9c85c2e68192f03605ec668606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 23/52] fix: size of the last buffer of a view layout

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index c480ae1..1841eec 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -188,7 +188,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 3fe8d040d3a00f7a13aa8fac9bac6c728087202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 24/52] fix: null dereference when the offsets buffer of an
 empty string array is omitted

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 1841eec..578417f 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -154,7 +154,7 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
-                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
+                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int32_t>(array.buffers[1])[size] : 0)};
             case data_type::LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
-- 
2.43.0


From 08cf04ca49d6dbc5b80269c7245381a0057f2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 25/52] fix: a mutation during which an allocation fails leaves
 the array unchanged, mutation of string arrays which have an offset

---
 .../sparrow/arrow_interface/arrow_array.hpp   |   9 +
 .../arrow_array/private_data.hpp              |   7 +-
 include/sparrow/layout/mutable_array_base.hpp |  84 ++--
 include/sparrow/layout/primitive_array.hpp    |  26 ++
 .../variable_size_binary_array.hpp            | 401 +++++++++---------
 src/arrow_array_schema_proxy.cpp              |   3 +-
 src/arrow_interface/arrow_array.cpp           |  61 ++-
 7 files changed, 331 insertions(+), 260 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array.hpp b/include/sparrow/arrow_interface/arrow_array.hpp
index a8a0512..74543d6 100644
--- a/include/sparrow/arrow_interface/arrow_array.hpp
+++ b/include/sparrow/arrow_interface/arrow_array.hpp
@@ -134,6 +134,15 @@ namespace sparrow
     SPARROW_API std::vector<sparrow::buffer_view<uint8_t>>
     get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema);
 
+    /**
+     * Same as above, but does not allocate if the capacity of \p buffers is sufficient.
+     */
+    SPARROW_API void get_arrow_array_buffers(
+        const ArrowArray& array,
+        const ArrowSchema& schema,
+        std::vector<sparrow::buffer_view<uint8_t>>& buffers
+    );
+
     /**
      * Fill the target ArrowArray with a deep copy of the data from the source ArrowArray.
      */
diff --git a/include/sparrow/arrow_interface/arrow_array/private_data.hpp b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
index 277dcf3..6a630a7 100644
--- a/include/sparrow/arrow_interface/arrow_array/private_data.hpp
+++ b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
@@ -112,6 +112,11 @@ namespace sparrow
 
     constexpr void arrow_array_private_data::update_buffers_ptrs()
     {
-        m_buffers_pointers = to_raw_ptr_vec<std::uint8_t>(m_buffers);
+        // Does not allocate when the number of buffers has not changed
+        m_buffers_pointers.resize(m_buffers.size());
+        for (std::size_t i = 0; i < m_buffers.size(); ++i)
+        {
+            m_buffers_pointers[i] = m_buffers[i].data();
+        }
     }
 }
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index afa0271..39fd485 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <concepts>
+#include <vector>
 
 #include "sparrow/layout/array_base.hpp"
 #include "sparrow/utils/mp_utils.hpp"
@@ -107,39 +108,49 @@ namespace sparrow
             SPARROW_ASSERT_TRUE(pos >= this->cbegin())
             SPARROW_ASSERT_TRUE(pos <= this->cend());
             SPARROW_ASSERT_TRUE(first <= last);
-            const difference_type distance = std::distance(this->cbegin(), pos);
-            const auto validity_range = std::ranges::subrange(first, last)
-                                        | std::views::transform(
-                                            [](const value_type& obj)
-                                            {
-                                                return obj.has_value();
-                                            }
-                                        );
-            auto& derived = this->derived_cast();
-            derived.insert_bitmap(
-                sparrow::next(this->bitmap_cbegin(), distance),
-                validity_range.begin(),
-                validity_range.end()
-            );
-
-            const auto value_range = std::ranges::subrange(first, last)
-                                     | std::views::transform(
-                                         [](const value_type& obj)
-                                         {
-                                             return obj.get();
-                                         }
-                                     );
-            derived.insert_values(
-                sparrow::next(derived.value_cbegin(), distance),
-                value_range.begin(),
-                value_range.end()
-            );
-            const difference_type count = std::distance(first, last);
-            // The following must be done after modifying the bitmap and values
-            this->get_arrow_proxy().set_length(this->size() + static_cast<size_t>(count));
-
-            derived.update();
-            return sparrow::next(this->begin(), distance);
+            if constexpr (!std::is_lvalue_reference_v<std::iter_reference_t<InputIt>>)
+            {
+                // The iterators build the values on the fly, they are built only once.
+                const std::vector<value_type> values(first, last);
+                return insert(pos, values.cbegin(), values.cend());
+            }
+            else
+            {
+                const difference_type distance = std::distance(this->cbegin(), pos);
+                const auto validity_range = std::ranges::subrange(first, last)
+                                            | std::views::transform(
+                                                [](const value_type& obj)
+                                                {
+                                                    return obj.has_value();
+                                                }
+                                            );
+                const auto value_range = std::ranges::subrange(first, last)
+                                         | std::views::transform(
+                                             [](const value_type& obj) -> const auto&
+                                             {
+                                                 return obj.get();
+                                             }
+                                         );
+                auto& derived = this->derived_cast();
+                // Everything that may throw is done before changing the array
+                derived.reserve_values(value_range.begin(), value_range.end());
+                derived.insert_bitmap(
+                    sparrow::next(this->bitmap_cbegin(), distance),
+                    validity_range.begin(),
+                    validity_range.end()
+                );
+                derived.insert_values(
+                    sparrow::next(derived.value_cbegin(), distance),
+                    value_range.begin(),
+                    value_range.end()
+                );
+                const difference_type count = std::distance(first, last);
+                // The following must be done after modifying the bitmap and values
+                this->get_arrow_proxy().set_length(this->size() + static_cast<size_t>(count));
+
+                derived.update();
+                return sparrow::next(this->begin(), distance);
+            }
         }
 
         /**
@@ -270,6 +281,11 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
+        if (new_length > this->size())
+        {
+            // Everything that may throw is done before changing the array
+            derived.reserve_values(value.get(), new_length - this->size());
+        }
         derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
@@ -304,6 +320,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= this->cend());
         const size_t distance = static_cast<size_t>(std::distance(this->cbegin(), pos));
         auto& derived = this->derived_cast();
+        // Everything that may throw is done before changing the array
+        derived.reserve_values(value.get(), count);
         derived.insert_bitmap(sparrow::next(this->bitmap_cbegin(), distance), value.has_value(), count);
         derived.insert_value(sparrow::next(derived.value_cbegin(), distance), value.get(), count);
         this->get_arrow_proxy().set_length(this->size() + count);  // Must be done after resizing the bitmap
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 8f4f476..82e2808 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -204,6 +204,12 @@ namespace sparrow
 
         // Modifiers
 
+        // Makes the insertion of \c count values unable to throw
+        void reserve_values(const inner_value_type& value, size_type count);
+
+        template <std::input_iterator InputIt>
+        void reserve_values(InputIt first, InputIt last);
+
         void resize_values(size_type new_length, inner_value_type value);
 
         value_iterator insert_value(const_value_iterator pos, inner_value_type value, size_type count);
@@ -413,6 +419,26 @@ namespace sparrow
         return make_buffer_adaptor<T>(buffers[DATA_BUFFER_INDEX]);
     }
 
+    template <class T>
+    void primitive_array<T>::reserve_values(const inner_value_type&, size_type count)
+    {
+        auto& proxy = this->get_arrow_proxy();
+        auto& data_buffer = proxy.get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
+        const size_type new_size = data_buffer.size() + count * sizeof(T);
+        if (new_size > data_buffer.capacity())
+        {
+            data_buffer.reserve(new_size * SPARROW_BUFFER_GROWTH_FACTOR);
+            proxy.update_buffers();
+        }
+    }
+
+    template <class T>
+    template <std::input_iterator InputIt>
+    void primitive_array<T>::reserve_values(InputIt first, InputIt last)
+    {
+        reserve_values(T(), static_cast<size_type>(std::distance(first, last)));
+    }
+
     template <class T>
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..5298d87 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -247,27 +247,38 @@ namespace sparrow
 
         // Modifiers
 
-        template <std::ranges::sized_range U>
-            requires mpl::convertible_ranges<U, T>
-        void resize_values(size_type new_length, U value);
+        // Makes the insertion of the values unable to throw
+        void reserve_values(const T& value, size_type count);
 
-        void resize_offsets(size_type new_length, offset_type offset_value);
+        template <std::input_iterator InputIt>
+        void reserve_values(InputIt first, InputIt last);
+
+        void reserve_values_impl(size_type byte_count, size_type count);
 
         template <std::ranges::sized_range U>
             requires mpl::convertible_ranges<U, T>
-        value_iterator insert_value(const_value_iterator pos, U value, size_type count);
+        void resize_values(size_type new_length, const U& value);
 
-        offset_iterator insert_offset(const_offset_iterator pos, offset_type size, size_type count);
+        template <std::ranges::sized_range U>
+            requires mpl::convertible_ranges<U, T>
+        value_iterator insert_value(const_value_iterator pos, const U& value, size_type count);
 
         template <mpl::iterator_of_type<T> InputIt>
         value_iterator insert_values(const_value_iterator pos, InputIt first, InputIt last);
 
-        template <mpl::iterator_of_type<OT> InputIt>
-        offset_iterator insert_offsets(const_offset_iterator pos, InputIt first, InputIt last);
-
         value_iterator erase_values(const_value_iterator pos, size_type count);
 
-        offset_iterator erase_offsets(const_offset_iterator pos, size_type count);
+        // Removes from the offsets and data buffers what follows the last element. The buffers
+        // of a slice hold the elements that follow the slice.
+        void discard_trailing_values();
+
+        // Adds byte_count bytes before the data of the element at index, and count offsets.
+        // Returns the position of the first byte added. The offsets added must be set by the
+        // caller.
+        size_type open_gap(size_type index, size_type byte_count, size_type count);
+
+        [[nodiscard]] buffer<uint8_t>& offset_storage();
+        [[nodiscard]] buffer<uint8_t>& data_storage();
 
         template <std::ranges::sized_range U>
             requires mpl::convertible_ranges<U, T>
@@ -413,36 +424,43 @@ namespace sparrow
         requires mpl::convertible_ranges<U, T>
     void variable_size_binary_array_impl<T, CR, OT>::assign(U&& rhs, size_type index)
     {
-        const auto offset_beg = *offset(index);
-        const auto offset_end = *offset(index + 1);
-        const auto initial_value_length = offset_end - offset_beg;
-        const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
-        const OT shift_byte_count = new_value_length - initial_value_length;
-        auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
-        if (shift_byte_count != 0)
+        SPARROW_ASSERT_TRUE(index < size());
+        // rhs may be an element of this array
+        const std::vector<uint8_t> bytes(std::ranges::begin(rhs), std::ranges::end(rhs));
+        auto& proxy = get_arrow_proxy();
+        auto& data_buffer = data_storage();
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        const size_type pos = static_cast<size_type>(proxy.offset()) + index;
+        const auto offset_beg = static_cast<difference_type>(offsets[pos]);
+        const auto offset_end = static_cast<difference_type>(offsets[pos + 1]);
+        const auto shift = static_cast<difference_type>(bytes.size()) - (offset_end - offset_beg);
+        if (shift > 0)
         {
-            const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
-            const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
-                                                                   : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
+            const auto old_size = static_cast<difference_type>(data_buffer.size());
+            data_buffer.resize(data_buffer.size() + static_cast<size_type>(shift));
             // Move elements to make space for the new value
             std::move_backward(
                 data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
+                data_buffer.begin() + old_size,
                 data_buffer.end()
             );
+        }
+        else if (shift < 0)
+        {
+            std::move(data_buffer.begin() + offset_end, data_buffer.end(), data_buffer.begin() + offset_end + shift);
+            data_buffer.resize(data_buffer.size() - static_cast<size_type>(-shift));
+        }
+        if (shift != 0)
+        {
             // Adjust offsets for subsequent elements
-            std::for_each(
-                offset(index + 1),
-                offset(size() + 1),
-                [shift_byte_count](auto& offset)
-                {
-                    offset += shift_byte_count;
-                }
-            );
+            for (size_type i = pos + 1; i < offsets.size(); ++i)
+            {
+                offsets[i] += static_cast<OT>(shift);
+            }
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::copy(bytes.cbegin(), bytes.cend(), data_buffer.begin() + offset_beg);
+        proxy.update_buffers();
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -529,21 +547,109 @@ namespace sparrow
         return sparrow::next(value_cbegin(), this->size());
     }
 
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    buffer<uint8_t>& variable_size_binary_array_impl<T, CR, OT>::offset_storage()
+    {
+        return get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    buffer<uint8_t>& variable_size_binary_array_impl<T, CR, OT>::data_storage()
+    {
+        return get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    void variable_size_binary_array_impl<T, CR, OT>::reserve_values(const T& value, size_type count)
+    {
+        reserve_values_impl(static_cast<size_type>(std::ranges::size(value)) * count, count);
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    template <std::input_iterator InputIt>
+    void variable_size_binary_array_impl<T, CR, OT>::reserve_values(InputIt first, InputIt last)
+    {
+        size_type byte_count = 0;
+        size_type count = 0;
+        for (; first != last; ++first)
+        {
+            const T& value = *first;
+            byte_count += static_cast<size_type>(std::ranges::size(value));
+            ++count;
+        }
+        reserve_values_impl(byte_count, count);
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    void variable_size_binary_array_impl<T, CR, OT>::reserve_values_impl(size_type byte_count, size_type count)
+    {
+        auto& proxy = get_arrow_proxy();
+        auto reserve = [&proxy](buffer<uint8_t>& buf, size_type new_size)
+        {
+            if (new_size > buf.capacity())
+            {
+                buf.reserve(new_size * SPARROW_BUFFER_GROWTH_FACTOR);
+                proxy.update_buffers();
+            }
+        };
+        reserve(data_storage(), data_storage().size() + byte_count);
+        if (offset_storage().empty())
+        {
+            // The offsets of an empty array may be omitted
+            SPARROW_ASSERT_TRUE(size() == 0);
+            offset_storage().resize((static_cast<size_type>(proxy.offset()) + 1) * sizeof(OT), 0);
+            proxy.update_buffers();
+        }
+        reserve(offset_storage(), offset_storage().size() + count * sizeof(OT));
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    void variable_size_binary_array_impl<T, CR, OT>::discard_trailing_values()
+    {
+        const size_type last = static_cast<size_type>(get_arrow_proxy().offset()) + size();
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        offsets.resize(last + 1);
+        data_storage().resize(static_cast<size_type>(offsets[last]));
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    auto
+    variable_size_binary_array_impl<T, CR, OT>::open_gap(size_type index, size_type byte_count, size_type count)
+        -> size_type
+    {
+        discard_trailing_values();
+        auto& data_buffer = data_storage();
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        const size_type pos = static_cast<size_type>(get_arrow_proxy().offset()) + index;
+        const auto byte_pos = static_cast<size_type>(offsets[pos]);
+        const size_type old_data_size = data_buffer.size();
+        const size_type old_offset_count = offsets.size();
+        data_buffer.resize(old_data_size + byte_count);
+        offsets.resize(old_offset_count + count);
+        // Move the data and the offsets to make space for the new values
+        std::move_backward(
+            sparrow::next(data_buffer.begin(), byte_pos),
+            sparrow::next(data_buffer.begin(), old_data_size),
+            data_buffer.end()
+        );
+        for (size_type i = old_offset_count; i > pos + 1; --i)
+        {
+            offsets[i - 1 + count] = offsets[i - 1] + static_cast<OT>(byte_count);
+        }
+        return byte_pos;
+    }
+
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     template <std::ranges::sized_range U>
         requires mpl::convertible_ranges<U, T>
-    void variable_size_binary_array_impl<T, CR, OT>::resize_values(size_type new_length, U value)
+    void variable_size_binary_array_impl<T, CR, OT>::resize_values(size_type new_length, const U& value)
     {
-        const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        auto& buffers = this->get_arrow_proxy().get_array_private_data()->buffers();
         if (new_length < size())
         {
-            const auto offset_begin = static_cast<size_t>(*offset(new_length));
-            auto& data_buffer = buffers[DATA_BUFFER_INDEX];
-            data_buffer.resize(offset_begin);
-            auto& offset_buffer = buffers[OFFSET_BUFFER_INDEX];
-            auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-            offset_buffer_adaptor.resize(new_size + 1);
+            const size_type last = static_cast<size_type>(get_arrow_proxy().offset()) + new_length;
+            auto offsets = make_buffer_adaptor<OT>(offset_storage());
+            data_storage().resize(static_cast<size_type>(offsets[last]));
+            offsets.resize(last + 1);
         }
         else if (new_length > size())
         {
@@ -554,49 +660,28 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     template <std::ranges::sized_range U>
         requires mpl::convertible_ranges<U, T>
-    auto
-    variable_size_binary_array_impl<T, CR, OT>::insert_value(const_value_iterator pos, U value, size_type count)
-        -> value_iterator
-    {
-        const auto idx = static_cast<size_t>(std::distance(value_cbegin(), pos));
-        const OT offset_begin = *offset(idx);
-        const std::vector<uint8_t> casted_value{value.cbegin(), value.cend()};
-        const repeat_view<std::vector<uint8_t>> my_repeat_view{casted_value, count};
-        const auto joined_repeated_value_range = std::ranges::views::join(my_repeat_view);
-        auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
-        const auto pos_to_insert = sparrow::next(data_buffer.cbegin(), offset_begin);
-        data_buffer.insert(pos_to_insert, joined_repeated_value_range.begin(), joined_repeated_value_range.end());
-        insert_offset(offsets_cbegin() + idx + 1, static_cast<offset_type>(value.size()), count);
-        return sparrow::next(value_begin(), idx);
-    }
-
-    template <std::ranges::sized_range T, class CR, layout_offset OT>
-    auto variable_size_binary_array_impl<T, CR, OT>::insert_offset(
-        const_offset_iterator pos,
-        offset_type value_size,
+    auto variable_size_binary_array_impl<T, CR, OT>::insert_value(
+        const_value_iterator pos,
+        const U& value,
         size_type count
-    ) -> offset_iterator
-    {
-        auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
-        auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
-        // Adjust offsets for subsequent elements
-        std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), idx + 1),
-            offset_buffer_adaptor.end(),
-            [cumulative_size](auto& offset)
-            {
-                offset += cumulative_size;
-            }
-        );
-        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), idx + 1), count, 0);
-        // Put the right values in the new offsets
-        for (size_t i = idx + 1; i < idx + 1 + count; ++i)
+    ) -> value_iterator
+    {
+        const auto idx = static_cast<size_type>(std::distance(value_cbegin(), pos));
+        if (count == 0)
         {
-            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
+            return sparrow::next(value_begin(), idx);
         }
-        return offsets_begin() + idx;
+        const auto value_size = static_cast<size_type>(std::ranges::size(value));
+        const size_type byte_pos = open_gap(idx, value_size * count, count);
+        auto output = sparrow::next(data_storage().begin(), byte_pos);
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        const size_type first_offset = static_cast<size_type>(get_arrow_proxy().offset()) + idx + 1;
+        for (size_type i = 0; i < count; ++i)
+        {
+            output = std::copy(std::ranges::begin(value), std::ranges::end(value), output);
+            offsets[first_offset + i] = static_cast<OT>(byte_pos + (i + 1) * value_size);
+        }
+        return sparrow::next(value_begin(), idx);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -605,87 +690,31 @@ namespace sparrow
     variable_size_binary_array_impl<T, CR, OT>::insert_values(const_value_iterator pos, InputIt first, InputIt last)
         -> value_iterator
     {
-        auto& data_buffer = get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
-        auto data_buffer_adaptor = make_buffer_adaptor<data_value_type>(data_buffer);
-        auto values = std::ranges::subrange(first, last);
-        const size_t cumulative_sizes = std::accumulate(
-            values.begin(),
-            values.end(),
-            size_t(0),
-            [](size_t acc, const T& value)
-            {
-                return acc + value.size();
-            }
-        );
-        data_buffer_adaptor.resize(data_buffer_adaptor.size() + cumulative_sizes);
-        const auto idx = static_cast<size_t>(std::distance(value_cbegin(), pos));
-        const OT offset_begin = *offset(idx);
-        auto insert_pos = sparrow::next(data_buffer_adaptor.begin(), offset_begin);
-
-        // Move elements to make space for the new value
-        std::move_backward(
-            insert_pos,
-            sparrow::next(data_buffer_adaptor.end(), -static_cast<difference_type>(cumulative_sizes)),
-            data_buffer_adaptor.end()
-        );
-
-        for (const T& value : values)
+        const auto idx = static_cast<size_type>(std::distance(value_cbegin(), pos));
+        size_type cumulative_sizes = 0;
+        for (auto it = first; it != last; ++it)
         {
-            std::copy(value.begin(), value.end(), insert_pos);
-            std::advance(insert_pos, value.size());
+            const T& value = *it;
+            cumulative_sizes += static_cast<size_type>(std::ranges::size(value));
         }
-
-        const auto sizes_of_each_value = std::ranges::views::transform(
-            values,
-            [](const T& value) -> offset_type
-            {
-                return static_cast<offset_type>(value.size());
-            }
-        );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
-        return sparrow::next(value_begin(), idx);
-    }
-
-    template <std::ranges::sized_range T, class CR, layout_offset OT>
-    template <mpl::iterator_of_type<OT> InputIt>
-    auto variable_size_binary_array_impl<T, CR, OT>::insert_offsets(
-        const_offset_iterator pos,
-        InputIt first_sizes,
-        InputIt last_sizes
-    ) -> offset_iterator
-    {
-        SPARROW_ASSERT_TRUE(pos >= offsets_cbegin());
-        SPARROW_ASSERT_TRUE(pos <= offsets_cend());
-        SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
-        auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
-        const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
-        const auto sizes_count = std::distance(first_sizes, last_sizes);
-        offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
-        // Move the offsets to make space for the new offsets
-        std::move_backward(
-            offset_buffer_adaptor.begin() + idx,
-            offset_buffer_adaptor.end() - sizes_count,
-            offset_buffer_adaptor.end()
-        );
-        // Adjust offsets for subsequent elements
-        std::for_each(
-            offset_buffer_adaptor.begin() + idx + sizes_count,
-            offset_buffer_adaptor.end(),
-            [cumulative_sizes](auto& offset)
-            {
-                offset += cumulative_sizes;
-            }
-        );
-        // Put the right values in the new offsets
-        InputIt it = first_sizes;
-        for (size_t i = static_cast<size_t>(idx + 1); i < static_cast<size_t>(idx + sizes_count + 1); ++i)
+        const auto count = static_cast<size_type>(std::distance(first, last));
+        if (count == 0)
+        {
+            return sparrow::next(value_begin(), idx);
+        }
+        size_type byte_pos = open_gap(idx, cumulative_sizes, count);
+        auto output = sparrow::next(data_storage().begin(), byte_pos);
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        size_type offset_index = static_cast<size_type>(get_arrow_proxy().offset()) + idx + 1;
+        for (; first != last; ++first)
         {
-            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
-            ++it;
+            const T& value = *first;
+            output = std::copy(std::ranges::begin(value), std::ranges::end(value), output);
+            byte_pos += static_cast<size_type>(std::ranges::size(value));
+            offsets[offset_index] = static_cast<OT>(byte_pos);
+            ++offset_index;
         }
-        return offset(static_cast<size_t>(idx));
+        return sparrow::next(value_begin(), idx);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -694,56 +723,26 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(pos >= value_cbegin());
         SPARROW_ASSERT_TRUE(pos <= value_cend());
-        const size_t index = static_cast<size_t>(std::distance(value_cbegin(), pos));
+        const auto index = static_cast<size_type>(std::distance(value_cbegin(), pos));
         if (count == 0)
         {
             return sparrow::next(value_begin(), index);
         }
-        auto& data_buffer = get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
-        const auto offset_begin = *offset(index);
-        const auto offset_end = *offset(index + count);
-        const size_t difference = static_cast<size_t>(offset_end - offset_begin);
-        // move the values after the erased ones
+        discard_trailing_values();
+        auto& data_buffer = data_storage();
+        auto offsets = make_buffer_adaptor<OT>(offset_storage());
+        const size_type first = static_cast<size_type>(get_arrow_proxy().offset()) + index;
+        const size_type last = first + count;
+        const OT offset_begin = offsets[first];
+        const OT offset_end = offsets[last];
+        // move the values and the offsets after the erased ones
         std::move(data_buffer.begin() + offset_end, data_buffer.end(), data_buffer.begin() + offset_begin);
-        data_buffer.resize(data_buffer.size() - difference);
-        // adjust the offsets for the subsequent elements
-        erase_offsets(offset(index), count);
-        return sparrow::next(value_begin(), index);
-    }
-
-    template <std::ranges::sized_range T, class CR, layout_offset OT>
-    auto variable_size_binary_array_impl<T, CR, OT>::erase_offsets(const_offset_iterator pos, size_type count)
-        -> offset_iterator
-    {
-        SPARROW_ASSERT_TRUE(pos >= offsets_cbegin());
-        SPARROW_ASSERT_TRUE(pos <= offsets_cend());
-        const size_t index = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
-        if (count == 0)
+        data_buffer.resize(data_buffer.size() - static_cast<size_type>(offset_end - offset_begin));
+        for (size_type i = last + 1; i < offsets.size(); ++i)
         {
-            return offset(index);
+            offsets[i - count] = static_cast<OT>(offsets[i] - (offset_end - offset_begin));
         }
-        auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const OT offset_start_value = *offset(index);
-        const OT offset_end_value = *offset(index + count);
-        const OT difference = offset_end_value - offset_start_value;
-        // move the offsets after the erased ones
-        std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
-            offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
-        );
-        offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
-        // adjust the offsets for the subsequent elements
-        std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
-            offset_buffer_adaptor.end(),
-            [difference](OT& offset)
-            {
-                offset -= difference;
-            }
-        );
-        return offset(index);
+        offsets.resize(offsets.size() - count);
+        return sparrow::next(value_begin(), index);
     }
-
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index f26d5f9..ee453c7 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -44,7 +44,7 @@ namespace sparrow
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
             array().n_buffers = static_cast<int64_t>(n_buffers());
         }
-        m_buffers = get_arrow_array_buffers(array(), schema());
+        get_arrow_array_buffers(array(), schema(), m_buffers);
     }
 
     void arrow_proxy::update_children()
@@ -748,7 +748,6 @@ namespace sparrow
             );
         }
 
-        SPARROW_ASSERT_TRUE(is_created_with_sparrow())
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 578417f..34e4675 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -112,8 +112,11 @@ namespace sparrow
     }
     
 
-    std::vector<sparrow::buffer_view<uint8_t>>
-    get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
+    void get_arrow_array_buffers(
+        const ArrowArray& array,
+        const ArrowSchema& schema,
+        std::vector<sparrow::buffer_view<uint8_t>>& buffers
+    )
     {   
         using buffer_view_type = sparrow::buffer_view<uint8_t>;
         const auto size = static_cast<size_t>(array.length + array.offset);
@@ -129,58 +132,64 @@ namespace sparrow
             return buffer_view_type(buffer_ptr, size);
         };
 
+        // Assigning reuses the memory of the vector
+        auto set_buffers = [&buffers](std::initializer_list<buffer_view_type> views)
+        {
+            buffers.assign(views);
+        };
+
         switch(format_to_data_type(schema.format))
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
             case data_type::MAP:
-                return {};
+                return set_buffers({});
             case data_type::BOOL:   
-                return {make_valid_buffer(), make_buffer(1, (size + 7) / 8)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, (size + 7) / 8)});
             case data_type::UINT8:
             case data_type::INT8:
-                return {make_valid_buffer(), make_buffer(1, size)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size)});
             case data_type::UINT16:
             case data_type::INT16:
             case data_type::HALF_FLOAT:
-                return {make_valid_buffer(), make_buffer(1, size * 2)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 2)});
             case data_type::UINT32:
             case data_type::INT32:
             case data_type::FLOAT:
-                return {make_valid_buffer(), make_buffer(1, size * 4)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 4)});
             case data_type::UINT64:
             case data_type::INT64:
             case data_type::DOUBLE:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 8)});
             case data_type::STRING:
             case data_type::BINARY:
-                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int32_t>(array.buffers[1])[size] : 0)};
+                return set_buffers({make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int32_t>(array.buffers[1])[size] : 0)});
             case data_type::LIST:
-                return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, (size + 1) * 4)});
             case data_type::LARGE_LIST:
-                return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, (size + 1) * 8)});
             case data_type::LIST_VIEW:
-                return {make_valid_buffer(), make_buffer(1, size * 4), make_buffer(2, size * 4)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 4), make_buffer(2, size * 4)});
             case data_type::LARGE_LIST_VIEW:
-                return {make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)});
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRUCT:
-                return  {make_valid_buffer()};
+                return set_buffers({make_valid_buffer()});
             case data_type::SPARSE_UNION:
-                return {make_buffer(0, size)};
+                return set_buffers({make_buffer(0, size)});
             case data_type::DENSE_UNION:
-                return {make_buffer(0, size), make_buffer(1, size*4)};
+                return set_buffers({make_buffer(0, size), make_buffer(1, size*4)});
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 8)});
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * 16)}); 
             case data_type::FIXED_WIDTH_BINARY:
-                return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
+                return set_buffers({make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))});
             case data_type::STRING_VIEW:
             case data_type::BINARY_VIEW:
                 const auto buffer_count = static_cast<size_t>(array.n_buffers);
                 const auto num_extra_data_buffers = buffer_count - 3;
-                std::vector<buffer_view_type> buffers(buffer_count);
+                buffers.assign(buffer_count, buffer_view_type(nullptr, 0));
                 int64_t * var_buffer_sizes = static_const_ptr_cast<int64_t>(array.buffers[buffer_count - 1]);
                 buffers[0] = make_valid_buffer();
                 buffers[1] = make_buffer(1, size * 16);
@@ -189,10 +198,16 @@ namespace sparrow
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
                 buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
-                return buffers;
+                return;
         }
-        // To avoid stupid warning "control reaches end of non-void function"
-        return {};
+    }
+
+    std::vector<sparrow::buffer_view<uint8_t>>
+    get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
+    {
+        std::vector<sparrow::buffer_view<uint8_t>> buffers;
+        get_arrow_array_buffers(array, schema, buffers);
+        return buffers;
     }
 
     void copy_array(const ArrowArray& source_array, const ArrowSchema& source_schema, ArrowArray& target)
-- 
2.43.0


From cb744f3efae74530d651bade17e15c5969b9dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 26/52] fix: nothing is leaked when the construction of an
 array throws

---
 .../arrow_array_schema_utils.hpp              | 106 ++++++++++++++++++
 .../layout/dictionary_encoded_array.hpp       |  20 ++--
 .../sparrow/layout/list_layout/list_array.hpp |  60 ++++++----
 include/sparrow/layout/primitive_array.hpp    |  10 +-
 .../layout/struct_layout/struct_array.hpp     |  24 ++--
 include/sparrow/layout/union_array.hpp        |  48 ++++----
 .../variable_size_binary_array.hpp            |  10 +-
 .../variable_size_binary_view_array.hpp       |  10 +-
 src/run_encoded_array.cpp                     |  31 +++--
 9 files changed, 218 insertions(+), 101 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index 6caaeac..3b1f6d5 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <algorithm>
+#include <memory>
 #include <optional>
 #include <ranges>
 #include <tuple>
@@ -238,6 +239,111 @@ namespace sparrow
         t.release = nullptr;
     }
 
+    namespace detail
+    {
+        /**
+         * Releases an ArrowArray or an ArrowSchema under construction, unless it is handed over.
+         */
+        template <class T>
+        class structure_guard
+        {
+        public:
+
+            explicit structure_guard(const T& structure) noexcept
+                : m_structure(structure)
+            {
+            }
+
+            structure_guard(const structure_guard&) = delete;
+            structure_guard& operator=(const structure_guard&) = delete;
+
+            ~structure_guard()
+            {
+                if (m_structure.release != nullptr)
+                {
+                    m_structure.release(&m_structure);
+                }
+            }
+
+            [[nodiscard]] T hand_over() noexcept
+            {
+                T res = m_structure;
+                m_structure.release = nullptr;
+                return res;
+            }
+
+        private:
+
+            T m_structure;
+        };
+
+        /**
+         * Owns the structures that will be the children or the dictionary of an ArrowArray or an
+         * ArrowSchema, until they are handed over to it.
+         */
+        template <class T>
+        class owned_structures
+        {
+        public:
+
+            explicit owned_structures(std::size_t size)
+                : m_structures(size)
+                , m_pointers(size != 0 ? std::make_unique<T*[]>(size) : nullptr)
+            {
+                for (std::size_t i = 0; i < size; ++i)
+                {
+                    m_structures[i] = std::make_unique<T>();
+                    m_pointers[i] = m_structures[i].get();
+                }
+            }
+
+            owned_structures(const owned_structures&) = delete;
+            owned_structures& operator=(const owned_structures&) = delete;
+
+            ~owned_structures()
+            {
+                for (auto& structure : m_structures)
+                {
+                    if (structure && structure->release != nullptr)
+                    {
+                        structure->release(structure.get());
+                    }
+                }
+            }
+
+            [[nodiscard]] T& operator[](std::size_t i)
+            {
+                return *m_structures[i];
+            }
+
+            [[nodiscard]] T** pointers() noexcept
+            {
+                return m_pointers.get();
+            }
+
+            /// The array of pointers and the structures must be freed with delete by the new owner
+            void hand_over() noexcept
+            {
+                std::ignore = m_pointers.release();
+                hand_over_structures();
+            }
+
+            /// Same as above, when the array of pointers is not used.
+            void hand_over_structures() noexcept
+            {
+                for (auto& structure : m_structures)
+                {
+                    std::ignore = structure.release();
+                }
+            }
+
+        private:
+
+            std::vector<std::unique_ptr<T>> m_structures;
+            std::unique_ptr<T*[]> m_pointers;
+        };
+    }
+
     template <class T>
     constexpr int64_t ssize(const T& value)
     {
diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..66d4a23 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -237,35 +237,39 @@ namespace sparrow
         const auto size = keys.size();
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VBI>(validity_input));
 
-        auto [value_array, value_schema] = extract_arrow_structures(std::move(values));
+        detail::owned_structures<ArrowArray> value_array(1);
+        detail::owned_structures<ArrowSchema> value_schema(1);
+        std::tie(value_array[0], value_schema[0]) = extract_arrow_structures(std::move(values));
         const auto null_count = vbitmap.null_count();
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             sparrow::data_type_format_of<IT>(),
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags
             0, // n_children
             nullptr, // children
-            new ArrowSchema(std::move(value_schema)) // dictionary
-        );
+            value_schema.pointers()[0] // dictionary
+        ));
+        value_schema.hand_over_structures();
 
         std::vector<buffer<uint8_t>> buffers(2);
         buffers[0] = std::move(vbitmap).extract_storage();
         buffers[1] = std::move(keys).extract_storage();
 
         // create arrow array
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<int64_t>(null_count),
             0, // offset
             std::move(buffers),
             0, // n_children
             nullptr, // children
-            new ArrowArray(std::move(value_array)) // dictionary
-        );
-        return arrow_proxy(std::move(arr), std::move(schema));
+            value_array.pointers()[0] // dictionary
+        ));
+        value_array.hand_over_structures();
+        return arrow_proxy(arr.hand_over(), schema.hand_over());
     }
 
     template <std::integral IT>
diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..ad97657 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -504,35 +504,39 @@ namespace sparrow
         const auto size = list_offsets.size() - 1;
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        detail::owned_structures<ArrowArray> child_arrays(1);
+        detail::owned_structures<ArrowSchema> child_schemas(1);
+        std::tie(child_arrays[0], child_schemas[0]) = extract_arrow_structures(std::move(flat_values));
 
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             BIG ? std::string("+L") : std::string("+l"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_schemas.hand_over();
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(list_offsets).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     template <bool BIG>
@@ -593,36 +597,40 @@ namespace sparrow
         const auto size = list_sizes.size();
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        detail::owned_structures<ArrowArray> child_arrays(1);
+        detail::owned_structures<ArrowSchema> child_schemas(1);
+        std::tie(child_arrays[0], child_schemas[0]) = extract_arrow_structures(std::move(flat_values));
 
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             BIG ? std::string("+vL") : std::string("+vl"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_schemas.hand_over();
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(list_offsets).extract_storage(),
             std::move(list_sizes).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     template <bool BIG>
@@ -706,32 +714,36 @@ namespace sparrow
         const auto size = flat_values.size() / static_cast<std::size_t>(list_size);
         auto vbitmap = ensure_validity_bitmap(size, std::forward<R>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        detail::owned_structures<ArrowArray> child_arrays(1);
+        detail::owned_structures<ArrowSchema> child_schemas(1);
+        std::tie(child_arrays[0], child_schemas[0]) = extract_arrow_structures(std::move(flat_values));
 
         const auto null_count = vbitmap.null_count();
 
         std::string format = "+w:" + std::to_string(list_size);
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_schemas.hand_over();
         std::vector<buffer<std::uint8_t>> arr_buffs = {vbitmap.extract_storage()};
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 }
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 82e2808..21091cc 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -273,7 +273,7 @@ namespace sparrow
         const auto null_count = bitmap.null_count();
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             sparrow::data_type_format_of<T>(),
             std::nullopt,  // name
             std::nullopt,  // metadata
@@ -281,14 +281,14 @@ namespace sparrow
             0,             // n_children
             nullptr,       // children
             nullptr        // dictionary
-        );
+        ));
 
         std::vector<buffer<uint8_t>> buffers(2);
         buffers[0] = std::move(bitmap).extract_storage();
         buffers[1] = std::move(data_buffer).extract_storage();
 
         // create arrow array
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size),  // length
             static_cast<int64_t>(null_count),
             0,  // offset
@@ -296,8 +296,8 @@ namespace sparrow
             0,        // n_children
             nullptr,  // children
             nullptr   // dictionary
-        );
-        return arrow_proxy(std::move(arr), std::move(schema));
+        ));
+        return arrow_proxy(arr.hand_over(), schema.hand_over());
     }
 
     template <class T>
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..c28c28d 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -150,8 +150,8 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::owned_structures<ArrowSchema> child_schemas(n_children);
+        detail::owned_structures<ArrowArray> child_arrays(n_children);
 
         const auto size = children[0].size();
         
@@ -159,38 +159,38 @@ namespace sparrow
         {
             auto & child = children[i];
             SPARROW_ASSERT_TRUE(child.size() == size);
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            std::tie(child_arrays[i], child_schemas[i]) = extract_arrow_structures(std::move(child));
         }
 
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
         const auto null_count = vbitmap.null_count();
         
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             std::string("+s"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
-        );
+        ));
+        child_schemas.hand_over();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<std::int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     inline auto struct_array::raw_child(std::size_t i) const -> const array_wrapper*
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..ca44c16 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -437,8 +437,8 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::owned_structures<ArrowSchema> child_schemas(n_children);
+        detail::owned_structures<ArrowArray> child_arrays(n_children);
         const auto size = element_type.size();
 
         // inverse type mapping (type_id -> child_index)
@@ -462,38 +462,38 @@ namespace sparrow
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            std::tie(child_arrays[i], child_schemas[i]) = extract_arrow_structures(std::move(child));
         }
 
         std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
         
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
-        );
+        ));
+        child_schemas.hand_over();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(element_type).extract_storage(),
             std::move(offsets).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<std::int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     #ifdef __GNUC__
@@ -525,8 +525,8 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::owned_structures<ArrowSchema> child_schemas(n_children);
+        detail::owned_structures<ArrowArray> child_arrays(n_children);
         const auto size = element_type.size();
 
         // inverse type mapping (type_id -> child_index)
@@ -549,37 +549,37 @@ namespace sparrow
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            std::tie(child_arrays[i], child_schemas[i]) = extract_arrow_structures(std::move(child));
         }
 
         std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
 
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
-        );
+        ));
+        child_schemas.hand_over();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(element_type).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<std::int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        child_arrays.hand_over();
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     inline std::size_t sparse_union_array::element_offset(std::size_t i) const
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 5298d87..f8bf72f 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -329,7 +329,7 @@ namespace sparrow
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             detail::variable_size_binary_format<T, OT>::format(),
             std::nullopt,  // name
             std::nullopt,  // metadata
@@ -338,14 +338,14 @@ namespace sparrow
             nullptr,       // children
             nullptr        // dictionary
 
-        );
+        ));
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(offsets).extract_storage(),
             std::move(data_buffer).extract_storage()
         };
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size),  // length
             static_cast<int64_t>(null_count),
             0,  // offset
@@ -353,8 +353,8 @@ namespace sparrow
             0,        // n_children
             nullptr,  // children
             nullptr   // dictionary
-        );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        ));
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..efe226a 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -255,7 +255,7 @@ namespace sparrow
         u8_buffer<int64_t> buffer_sizes(static_cast<std::size_t>(1), static_cast<int64_t>(long_string_storage_size));
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             std::is_same<T, std::string_view>::value ? std::string_view("vu") : std::string_view("vz"),
             std::nullopt, // name
             std::nullopt, // metadata
@@ -263,7 +263,7 @@ namespace sparrow
             0, // n_children
             nullptr, // children
             nullptr // dictionary
-        );
+        ));
 
         std::vector<buffer<uint8_t>> buffers{
             std::move(vbitmap).extract_storage(),
@@ -273,7 +273,7 @@ namespace sparrow
         };
 
         // create arrow array
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(size), // length
             static_cast<int64_t>(null_count),
             0, // offset
@@ -281,9 +281,9 @@ namespace sparrow
             0, // n_children
             nullptr, // children
             nullptr // dictionary
-        );
+        ));
         
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
 
         #ifdef __GNUC__
         #    pragma GCC diagnostic pop
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..65a9057 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -108,42 +108,37 @@ namespace sparrow
     {   
         auto [null_count, length] = extract_length_and_null_count(acc_lengths, encoded_values);
 
-        auto [acc_length_array, acc_length_schema] = extract_arrow_structures(std::move(acc_lengths));
-        auto [encoded_values_array, encoded_values_schema] = extract_arrow_structures(std::move(encoded_values));
-
         constexpr auto n_children = 2;
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
-
-        child_schemas[0] = new ArrowSchema(std::move(acc_length_schema));
-        child_schemas[1] = new ArrowSchema(std::move(encoded_values_schema));
-
-        child_arrays[0] = new ArrowArray(std::move(acc_length_array));
-        child_arrays[1] = new ArrowArray(std::move(encoded_values_array));
+        detail::owned_structures<ArrowSchema> child_schemas(n_children);
+        detail::owned_structures<ArrowArray> child_arrays(n_children);
 
+        std::tie(child_arrays[0], child_schemas[0]) = extract_arrow_structures(std::move(acc_lengths));
+        std::tie(child_arrays[1], child_schemas[1]) = extract_arrow_structures(std::move(encoded_values));
 
-        ArrowSchema schema = make_arrow_schema(
+        detail::structure_guard schema(make_arrow_schema(
             std::string("+r"),
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             n_children,
-            child_schemas, // children
+            child_schemas.pointers(), // children
             nullptr // dictionary
-        );
+        ));
+        child_schemas.hand_over();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {};
 
-        ArrowArray arr = make_arrow_array(
+        detail::structure_guard arr(make_arrow_array(
             static_cast<std::int64_t>(length), // length
             static_cast<int64_t>(null_count),
             0, // offset
             std::move(arr_buffs),
             n_children, // n_children
-            child_arrays, // children
+            child_arrays.pointers(), // children
             nullptr // dictionary
-        );
+        ));
+        child_arrays.hand_over();
 
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        return arrow_proxy{arr.hand_over(), schema.hand_over()};
     }
 }
-- 
2.43.0


From e3a255139d7acf30e58e91e4c01e69159066af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 27/52] fix: a failed allocation when a buffer is built from an
 allocator terminates, null block given back to allocators

---
 include/sparrow/buffer/buffer.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 8d63034..e16bebf 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -65,7 +65,7 @@ namespace sparrow
         buffer_base() = default;
 
         template <allocator A>
-        constexpr buffer_base(const A& a) noexcept;
+        constexpr buffer_base(const A& a);
 
         template <allocator A = allocator_type>
         constexpr buffer_base(size_type n, const A& a = A());
@@ -322,7 +322,7 @@ namespace sparrow
 
     template <class T>
     template <allocator A>
-    constexpr buffer_base<T>::buffer_base(const A& a) noexcept
+    constexpr buffer_base<T>::buffer_base(const A& a)
         : m_alloc(a)
     {
     }
@@ -390,7 +390,12 @@ namespace sparrow
     template <class T>
     constexpr void buffer_base<T>::deallocate(pointer p, size_type n)
     {
-        alloc_traits::deallocate(m_alloc, p, n);
+        // An allocator only takes back what it gave, and a buffer
+        // without storage never asked for any.
+        if (p != nullptr)
+        {
+            alloc_traits::deallocate(m_alloc, p, n);
+        }
     }
 
     template <class T>
-- 
2.43.0


From 742b8a0f42cc7c0d82262fd472d66ced3f812e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 28/52] fix: list, struct and union arrays which have an offset
 read the wrong elements

---
 .../sparrow/layout/list_layout/list_array.hpp   | 17 +++++++----------
 .../layout/struct_layout/struct_array.hpp       |  4 ++--
 include/sparrow/layout/union_array.hpp          |  4 ++--
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index ad97657..d6aff2e 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -566,9 +566,8 @@ namespace sparrow
     template <bool BIG>
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -664,17 +663,15 @@ namespace sparrow
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
@@ -701,7 +698,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index c28c28d..1c369db 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index ca44c16..d774220 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From 13a71e6498d8720c71865df1d814dba9c9d4b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 29/52] fix: binary view arrays ignored their offset, and
 numbered the data buffers against the specification

---
 .../sparrow/layout/variable_size_binary_view_array.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index efe226a..9002c38 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -219,8 +219,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the buffer index, counted from the first of the variadic data buffers
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = std::int32_t(0);
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -308,7 +308,7 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + ((i + this->get_arrow_proxy().offset()) * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
@@ -326,7 +326,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
@@ -338,7 +338,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From aaef4e42162f2275936a1e6873d698ab45586c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 30/52] fix: run-end encoded arrays read out of bounds at their
 end, ignored their offset and the nulls of their values, and refused signed
 run ends

---
 .../run_end_encoded_array.hpp                 | 42 ++++++----------
 .../run_end_encoded_iterator.hpp              | 16 +++---
 src/run_encoded_array.cpp                     | 49 ++++++++++++-------
 3 files changed, 58 insertions(+), 49 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..50f09ee 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -93,11 +93,21 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        using acc_length_ptr_variant_type = std::variant<
+            const std::uint16_t*,
+            const std::uint32_t*,
+            const std::uint64_t*,
+            const std::int16_t*,
+            const std::int32_t*,
+            const std::int64_t*>;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
-        SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+
+        // The position, from the start of the run ends, of the first element after the given run.
+        SPARROW_API std::uint64_t get_run_end(std::uint64_t run_index) const;
+        // The index of the run which the element i of the array belongs to.
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t i) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -154,26 +164,6 @@ namespace sparrow
         return m_proxy.length();
     }
 
-    inline auto run_end_encoded_array::get_run_length(std::uint64_t run_index) const -> std::uint64_t
-    {
-
-        auto ret =  std::visit(
-            [run_index](auto&& acc_lengths_ptr) -> std::uint64_t
-            {
-                if(run_index == 0)
-                {   
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
-                }
-                else
-                {
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index] - acc_lengths_ptr[run_index - 1]);
-                }
-            },
-            m_acc_lengths
-        );
-        return ret;
-    }
-    
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,12 +181,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::end() -> iterator
     {
-        return iterator(this, size(), 0);
+        return iterator(this, size());
     }
 
     inline auto run_end_encoded_array::begin() const -> const_iterator
@@ -211,12 +201,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
     {
-        return const_iterator(this, size(), 0);
+        return const_iterator(this, size());
     }
 
     inline bool operator==(const run_end_encoded_array& lhs, const run_end_encoded_array& rhs)
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..6cca09e 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -44,7 +44,7 @@ namespace sparrow
         using array_ptr_type = std::conditional_t<CONST, const run_end_encoded_array *, run_end_encoded_array*>;
     public:
         run_encoded_array_iterator() = default;
-        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index);
+        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index);
     private:
 
         bool equal(const run_encoded_array_iterator& rhs) const;
@@ -60,14 +60,18 @@ namespace sparrow
     };
     
     template<bool CONST>
-    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index)
+    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index)
         : 
         p_array(array_ptr),
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
-        m_index(index), 
-        m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_index(index)
     {
+        // There is no run behind the end of the array
+        if (m_index < p_array->size())
+        {
+            m_run_end_index = p_array->get_run_index(m_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - p_array->m_proxy.offset() - m_index;
+        }
     }
 
     template<bool CONST>
@@ -84,7 +88,7 @@ namespace sparrow
         if(m_runs_left == 0 && m_index < p_array->size())
         {
             ++m_run_end_index;
-            m_runs_left = p_array->get_run_length(m_run_end_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - p_array->m_proxy.offset() - m_index;
         }
     }
 
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index 65a9057..f1157d1 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -9,6 +9,9 @@ namespace sparrow
     template<class T>
     concept usable_array =
              mpl::is_type_instance_of_v<T, primitive_array> && (
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t> ||
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
              std::same_as<typename T::inner_value_type, std::uint64_t>);
@@ -35,17 +38,38 @@ namespace sparrow
 
     auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
     {
-        return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
+    }
+
+    std::uint64_t run_end_encoded_array::get_run_end(std::uint64_t run_index) const
+    {
+        return std::visit(
+            [run_index](const auto& acc_lengths_ptr) -> std::uint64_t
+            {
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
+            },
+            m_acc_lengths
+        );
+    }
+
+    std::uint64_t run_end_encoded_array::get_run_index(std::uint64_t i) const
+    {
+        // The run ends are not affected by the offset of the array
+        const std::uint64_t position = i + m_proxy.offset();
+        return std::visit(
+            [position, this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + this->m_encoded_length,
-                    i
+                    position,
+                    [](std::uint64_t lhs, const auto& run_end)
+                    {
+                        return lhs < static_cast<std::uint64_t>(run_end);
+                    }
                 );
-                // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
+                // std::upper_bound returns an iterator, so we need to convert it to an index
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
@@ -58,8 +82,6 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(acc_lengths_arr.size() == encoded_values_arr.size());
 
-        // get the raw null count
-        std::uint64_t raw_null_count = detail::array_access::get_arrow_proxy(acc_lengths_arr).null_count();
         auto raw_size = acc_lengths_arr.size();
         // visit the acc_lengths array
         std::int64_t length = 0;
@@ -70,11 +92,8 @@ namespace sparrow
                 {   
                     auto acc_length_data = acc_lengths_array.data();
                     // get the length of the array (ie last element in the acc_lengths array)
-                    length = acc_length_data[raw_size - 1];
+                    length = raw_size == 0 ? 0 : static_cast<std::int64_t>(acc_length_data[raw_size - 1]);
 
-                    if(raw_null_count == 0){
-                        return;
-                    }
                     for(std::size_t i = 0; i < raw_size; ++i)
                     {
                         // check if the value is null
@@ -82,11 +101,7 @@ namespace sparrow
                         {
                             // how often is this value repeated?
                             const auto run_length = i == 0 ? acc_length_data[i] : acc_length_data[i] - acc_length_data[i - 1];
-                            null_count += run_length;
-                            raw_null_count -= 1;
-                            if(raw_null_count == 0){
-                                return;
-                            }
+                            null_count += static_cast<std::int64_t>(run_length);
                         }
                     }
                     
-- 
2.43.0


From 234f70a8b0dc38849d4503b9b40bcc7dd8431fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 31/52] fix: failed allocation while a cloning_ptr is copied
 terminates the process

---
 include/sparrow/utils/memory.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/utils/memory.hpp b/include/sparrow/utils/memory.hpp
index dbfa9bf..9909c0f 100644
--- a/include/sparrow/utils/memory.hpp
+++ b/include/sparrow/utils/memory.hpp
@@ -139,25 +139,25 @@ namespace sparrow
 
         constexpr ~cloning_ptr() = default;
 
-        constexpr cloning_ptr(const self_type& rhs) noexcept;
+        constexpr cloning_ptr(const self_type& rhs);
         constexpr cloning_ptr(self_type&& rhs) noexcept = default;
         
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
-        constexpr cloning_ptr(const cloning_ptr<U>& rhs) noexcept;
+        constexpr cloning_ptr(const cloning_ptr<U>& rhs);
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
         constexpr cloning_ptr(cloning_ptr<U>&& rhs) noexcept;
 
-        constexpr self_type& operator=(const self_type&) noexcept;
+        constexpr self_type& operator=(const self_type&);
         constexpr self_type& operator=(self_type&&) noexcept = default;
         constexpr self_type& operator=(std::nullptr_t) noexcept;
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
-        constexpr self_type& operator=(const cloning_ptr<U>& rhs) noexcept;
+        constexpr self_type& operator=(const cloning_ptr<U>& rhs);
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
@@ -351,7 +351,7 @@ namespace sparrow
     }
 
     template <clonable T>
-    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr& rhs) noexcept
+    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr& rhs)
         : m_data(rhs ? rhs->clone() : nullptr)
     {
     }
@@ -359,7 +359,7 @@ namespace sparrow
     template <clonable T>
     template <clonable U>
     requires std::convertible_to<U*, T*>
-    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr<U>& rhs) noexcept
+    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr<U>& rhs)
         : m_data(rhs ? rhs->clone() : nullptr)
     {
     }
@@ -373,7 +373,7 @@ namespace sparrow
     }
 
     template <clonable T>
-    constexpr auto cloning_ptr<T>::operator=(const self_type& rhs) noexcept -> self_type&
+    constexpr auto cloning_ptr<T>::operator=(const self_type& rhs) -> self_type&
     {
         m_data = rhs ? rhs->clone() : nullptr;
         return *this;
@@ -389,7 +389,7 @@ namespace sparrow
     template <clonable T>
     template <clonable U>
     requires std::convertible_to<U*, T*>
-    constexpr auto cloning_ptr<T>::operator=(const cloning_ptr<U>& rhs) noexcept -> self_type&
+    constexpr auto cloning_ptr<T>::operator=(const cloning_ptr<U>& rhs) -> self_type&
     {
         m_data = rhs ? rhs->clone() : nullptr;
         return *this;
-- 
2.43.0


From b4e7840b4a8d9da283b8010a458264b8839a3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 32/52] fix: type of null elements of a dictionary encoded
 array depended on other arrays of the process

---
 .../layout/dictionary_encoded_array.hpp       | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index 66d4a23..5fdecb2 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,8 +152,6 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
-        //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
         static keys_layout create_keys_layout(arrow_proxy& proxy);
@@ -329,31 +327,20 @@ namespace sparrow
         return const_iterator(const_functor_type(this), size());
     }
 
-    template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
-    {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
-    }
-
-    /*template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_const_reference() const -> inner_const_reference
-    {
-        static const inner_const_reference instance =
-            std::visit([](const auto& val) -> inner_const_reference { return val; }, dummy_inner_value());
-        return instance;
-    }*/
-
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
+        // The type of a null element depends on the type of the values of this very array
+        return std::visit(
+            [](const auto& val) -> const_reference
+            {
+                using value_t = std::decay_t<decltype(val)>;
+                using inner_ref = typename arrow_traits<value_t>::const_reference;
+                static const value_t instance{};
+                return nullable<inner_ref>(inner_ref(instance), false);
             },
-            dummy_inner_value());
-        return instance;
+            array_default_element_value(*p_values_layout)
+        );
     }
 
     template <std::integral IT>
-- 
2.43.0


From 76ec72aefd701a5d35c862b8f47c96eee92081e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 33/52] fix: record batches emptied the ranges they were built
 from, and a failed copy assignment left names, columns and map inconsistent

---
 include/sparrow/record_batch.hpp | 14 +++++++++++---
 src/record_batch.cpp             |  5 ++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..e8d1eaf 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -157,8 +157,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +172,15 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        // Only the elements of a range that is given up by the caller may be moved from
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<std::remove_cvref_t<R>>)
+        {
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
diff --git a/src/record_batch.cpp b/src/record_batch.cpp
index 6c7ed8a..cb58347 100644
--- a/src/record_batch.cpp
+++ b/src/record_batch.cpp
@@ -44,9 +44,8 @@ namespace sparrow
 
     record_batch& record_batch::operator=(const record_batch& rhs)
     {
-        m_name_list = rhs.m_name_list;
-        m_array_list = rhs.m_array_list;
-        init_array_map();
+        record_batch tmp(rhs);
+        *this = std::move(tmp);
         return *this;
     }
 
-- 
2.43.0


From a2ebf00caa6922d3f3e440adbd8cfc2b3455f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 34/52] fix: elements of a constant binary view array cannot be
 read

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 9002c38..575b47a 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,7 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
-
+        friend class array_crtp_base<self_type>;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
     };
 
     template <class T>
-- 
2.43.0


From 476bd6882445cce73ac0ed52299547a733df4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 35/52] fix: copies of empty arrays whose offsets are omitted
 read and export missing offsets

---
 src/arrow_interface/arrow_array.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 34e4675..f028483 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -129,7 +129,8 @@ namespace sparrow
         auto make_buffer =  [&](auto index, auto size)
         {
             auto buffer_ptr = static_const_ptr_cast<uint8_t>(array.buffers[index]);
-            return buffer_view_type(buffer_ptr, size);
+            // The offsets of an empty array can be omitted
+            return buffer_ptr != nullptr ? buffer_view_type(buffer_ptr, size) : buffer_view_type(nullptr, 0);
         };
 
         // Assigning reuses the memory of the vector
@@ -234,6 +235,16 @@ namespace sparrow
         {
             buffers_copy[0] = dynamic_bitset<std::uint8_t>(size, true).extract_storage();
         }
+        // Likewise for the offsets, which can be omitted when the array is empty.
+        const auto type = format_to_data_type(source_schema.format);
+        const bool has_offsets = type == data_type::STRING || type == data_type::BINARY
+                                 || type == data_type::LIST || type == data_type::LARGE_LIST;
+        if (has_offsets && source_array.buffers[1] == nullptr)
+        {
+            const std::size_t offset_size = type == data_type::LARGE_LIST ? sizeof(std::int64_t)
+                                                                         : sizeof(std::int32_t);
+            buffers_copy[1] = buffer<std::uint8_t>((size + 1) * offset_size, std::uint8_t(0));
+        }
         const auto private_data = new arrow_array_private_data(
             std::move(buffers_copy),
             static_cast<std::size_t>(source_array.n_children)
-- 
2.43.0


From d4c6c3a91ef38da6601315e5b4134ebd03dab49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 36/52] fix: null count of the slice of a union or run-end
 encoded array

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 2903fad..61794fc 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -404,6 +404,7 @@ namespace sparrow
         void update_children();
         void update_dictionary();
         void update_null_count();
+        void update_null_count_of_slice();
         void reset();
 
         [[nodiscard]] bool array_created_with_sparrow() const;
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index ee453c7..343320d 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -711,6 +711,21 @@ namespace sparrow
         }
     }
 
+    void arrow_proxy::update_null_count_of_slice()
+    {
+        const auto type = data_type();
+        if (type == sparrow::data_type::NA || has_bitmap(type))
+        {
+            update_null_count();
+        }
+        else if (array().null_count != 0)
+        {
+            // The nulls of unions and run-end encoded arrays are those of their children, the
+            // count of the whole array does not hold for a part of it
+            array().null_count = -1;
+        }
+    }
+
     bool arrow_proxy::is_arrow_array_valid() const
     {
         return array().release != nullptr;
@@ -852,7 +867,7 @@ namespace sparrow
         copy.array().offset = static_cast<int64_t>(offset() + start);
         copy.array().length = static_cast<int64_t>(end - start);
         copy.update_buffers();
-        copy.update_null_count();
+        copy.update_null_count_of_slice();
         return copy;
     }
 
@@ -866,7 +881,7 @@ namespace sparrow
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
         arrow_proxy view{std::move(ar), std::move(as)};
-        view.update_null_count();
+        view.update_null_count_of_slice();
         return view;
     }
 }
-- 
2.43.0


From c8a6d9d8f0ce67cdd97974b44d917e00bdde62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 37/52] fix: arrow_proxy moves must not throw, growing a vector
 of children copied them

---
 include/sparrow/arrow_array_schema_proxy.hpp | 9 +++++----
 src/arrow_array_schema_proxy.cpp             | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 61794fc..c398732 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -81,8 +81,9 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
-        SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
+        // They never throw: a vector of proxies must move its elements, copying them would deep copy the structures
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
+        SPARROW_API arrow_proxy& operator=(arrow_proxy&&) noexcept;
 
         SPARROW_API ~arrow_proxy();
 
@@ -389,7 +390,7 @@ namespace sparrow
         };
 
         // Build an empty proxy. Convenient for resizing vector of children
-        arrow_proxy();
+        arrow_proxy() noexcept;
 
         template <typename AA, typename AS>
             requires std::same_as<std::remove_pointer_t<std::remove_cvref_t<AA>>, ArrowArray>
@@ -405,7 +406,7 @@ namespace sparrow
         void update_dictionary();
         void update_null_count();
         void update_null_count_of_slice();
-        void reset();
+        void reset() noexcept;
 
         [[nodiscard]] bool array_created_with_sparrow() const;
         [[nodiscard]] bool schema_created_with_sparrow() const;
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 343320d..01de484 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -69,7 +69,7 @@ namespace sparrow
         }
     }
 
-    void arrow_proxy::reset()
+    void arrow_proxy::reset() noexcept
     {
         m_buffers.clear();
         m_children.clear();
@@ -93,7 +93,7 @@ namespace sparrow
         SPARROW_ASSERT_TRUE((array().dictionary == nullptr) == (schema().dictionary == nullptr));
     }
 
-    arrow_proxy::arrow_proxy()
+    arrow_proxy::arrow_proxy() noexcept
         : m_array(nullptr)
         , m_schema(nullptr)
     {
@@ -171,7 +171,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -183,7 +183,7 @@ namespace sparrow
         other.reset();
     }
 
-    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs)
+    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs) noexcept
     {
         swap(rhs);
         return *this;
-- 
2.43.0


From 89a2f8032cb95bbdab335c579c162ee1fadfdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 38/52] fix: replacing or dropping children of a proxy leaked
 or double released them, and a failure half-way left the pair inconsistent

---
 include/sparrow/arrow_array_schema_proxy.hpp |  51 ++++++---
 src/arrow_array_schema_proxy.cpp             | 106 ++++++++++++-------
 2 files changed, 107 insertions(+), 50 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index c398732..74fd2d2 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -16,6 +16,7 @@
 
 #include <optional>
 #include <string_view>
+#include <utility>
 
 #include "sparrow/arrow_interface/arrow_array/private_data.hpp"
 #include "sparrow/arrow_interface/arrow_array_schema_info_utils.hpp"
@@ -399,6 +400,8 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_owned_child(size_t index);
+        void replace_child(size_t index, arrow_proxy&& child, bool ownership);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
@@ -436,13 +439,21 @@ namespace sparrow
         const size_t new_children_count = original_children_count + add_children_count;
 
         resize_children(new_children_count);
-        for (size_t i = 0; i < add_children_count; ++i)
+        try
         {
-            set_child(
-                i + original_children_count,
-                arrow_array_and_schema_pointers[i].array,
-                arrow_array_and_schema_pointers[i].schema
-            );
+            for (size_t i = 0; i < add_children_count; ++i)
+            {
+                set_child(
+                    i + original_children_count,
+                    arrow_array_and_schema_pointers[i].array,
+                    arrow_array_and_schema_pointers[i].schema
+                );
+            }
+        }
+        catch (...)
+        {
+            resize_children(original_children_count);
+            throw;
         }
     }
 
@@ -460,13 +471,29 @@ namespace sparrow
         const size_t new_children_count = original_children_count + add_children_count;
 
         resize_children(new_children_count);
-        for (size_t i = 0; i < add_children_count; ++i)
+        size_t added = 0;
+        try
+        {
+            for (; added < add_children_count; ++added)
+            {
+                set_child(
+                    added + original_children_count,
+                    std::move(arrow_arrays_and_schemas[added].array),
+                    std::move(arrow_arrays_and_schemas[added].schema)
+                );
+            }
+        }
+        catch (...)
         {
-            set_child(
-                i + original_children_count,
-                std::move(arrow_arrays_and_schemas[i].array),
-                std::move(arrow_arrays_and_schemas[i].schema)
-            );
+            // The children go back to the caller
+            for (size_t i = 0; i < added; ++i)
+            {
+                arrow_proxy& child = m_children[i + original_children_count];
+                arrow_arrays_and_schemas[i].array = std::exchange(child.array(), ArrowArray{});
+                arrow_arrays_and_schemas[i].schema = std::exchange(child.schema(), ArrowSchema{});
+            }
+            resize_children(original_children_count);
+            throw;
         }
     }
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 01de484..d898ebc 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -14,6 +14,10 @@
 
 #include "sparrow/arrow_array_schema_proxy.hpp"
 
+#include <algorithm>
+#include <array>
+#include <memory>
+#include <tuple>
 #include <utility>
 
 #include "sparrow/arrow_interface/arrow_array.hpp"
@@ -425,41 +429,67 @@ namespace sparrow
 
         arrow_array_private_data* array_private_data = get_array_private_data();
         arrow_schema_private_data* schema_private_data = get_schema_private_data();
-        // Release the remaining children if the new size is smaller than the current size
-        for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
+        const size_t current_count = n_children();
+        if (children_count > current_count)
         {
-            if (schema_private_data->has_child_ownership(i))
+            // All the allocations come first, nothing changes if one of them fails
+            auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
+            auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
+            m_children.reserve(children_count);
+            array_private_data->resize_children(children_count);
+            schema_private_data->resize_children(children_count);
+
+            std::copy_n(array().children, current_count, new_array_children.get());
+            std::copy_n(schema().children, current_count, new_schema_children.get());
+            delete[] std::exchange(array().children, new_array_children.release());
+            delete[] std::exchange(schema().children, new_schema_children.release());
+        }
+        else
+        {
+            // Release the remaining children if the new size is smaller than the current size
+            for (size_t i = children_count; i < current_count; ++i)
             {
-                schema().children[i]->release(schema().children[i]);
+                release_owned_child(i);
             }
-            if (array_private_data->has_child_ownership(i))
+            array_private_data->resize_children(children_count);
+            schema_private_data->resize_children(children_count);
+        }
+        array().n_children = static_cast<int64_t>(children_count);
+        schema().n_children = static_cast<int64_t>(children_count);
+        m_children.resize(children_count, arrow_proxy());
+    }
+
+    void arrow_proxy::release_owned_child(size_t index)
+    {
+        const auto release = [](auto* child)
+        {
+            if (child->release != nullptr)
             {
-                array().children[i]->release(array().children[i]);
+                child->release(child);
             }
+            delete child;
+        };
+        if (get_schema_private_data()->has_child_ownership(index))
+        {
+            release(std::exchange(schema().children[index], nullptr));
         }
-
-        auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
-        auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
-
-        for (size_t i = 0; i < std::min(children_count, static_cast<size_t>(array().n_children)); ++i)
+        if (get_array_private_data()->has_child_ownership(index))
         {
-            new_array_children[i] = array().children[i];
-            new_schema_children[i] = schema().children[i];
+            release(std::exchange(array().children[index], nullptr));
         }
-        auto* tmp_array_children = array().children;
-        auto* tmp_schema_children = schema().children;
-
-        array().children = new_array_children.release();
-        array().n_children = static_cast<int64_t>(children_count);
-        schema().children = new_schema_children.release();
-        schema().n_children = static_cast<int64_t>(children_count);
-
-        array_private_data->resize_children(children_count);
-        schema_private_data->resize_children(children_count);
-        m_children.resize(children_count, arrow_proxy());
+    }
 
-        new_array_children.reset(tmp_array_children);
-        new_schema_children.reset(tmp_schema_children);
+    void arrow_proxy::replace_child(size_t index, arrow_proxy&& child, bool ownership)
+    {
+        if (array().children[index] != &child.array())
+        {
+            release_owned_child(index);
+        }
+        array().children[index] = &child.array();
+        schema().children[index] = &child.schema();
+        m_children[index] = std::move(child);
+        get_array_private_data()->set_child_ownership(index, ownership);
+        get_schema_private_data()->set_child_ownership(index, ownership);
     }
 
     arrow_schema_private_data* arrow_proxy::get_schema_private_data()
@@ -535,11 +565,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
-        array().children[index] = child_array;
-        schema().children[index] = child_schema;
-        m_children[index] = arrow_proxy(child_array, child_schema);
-        get_array_private_data()->set_child_ownership(index, false);
-        get_schema_private_data()->set_child_ownership(index, false);
+        replace_child(index, arrow_proxy(child_array, child_schema), false);
     }
 
     void arrow_proxy::set_child(size_t index, ArrowArray&& child_array, ArrowSchema&& child_schema)
@@ -551,11 +577,13 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
-        array().children[index] = new ArrowArray(std::move(child_array));
-        schema().children[index] = new ArrowSchema(std::move(child_schema));
-        m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
-        get_array_private_data()->set_child_ownership(index, true);
-        get_schema_private_data()->set_child_ownership(index, true);
+        auto new_array = std::make_unique<ArrowArray>(child_array);
+        auto new_schema = std::make_unique<ArrowSchema>(child_schema);
+        replace_child(index, arrow_proxy(new_array.get(), new_schema.get()), true);
+        std::ignore = new_array.release();
+        std::ignore = new_schema.release();
+        child_array = {};
+        child_schema = {};
     }
 
     void arrow_proxy::add_child(ArrowArray* array, ArrowSchema* schema)
@@ -566,8 +594,10 @@ namespace sparrow
 
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
-        using value_type = arrow_array_and_schema;
-        add_children(std::ranges::single_view(value_type{std::move(array), std::move(schema)}));
+        std::array<arrow_array_and_schema, 1> child{arrow_array_and_schema{array, schema}};
+        add_children(child);
+        array = {};
+        schema = {};
     }
 
     [[nodiscard]] const std::unique_ptr<arrow_proxy>& arrow_proxy::dictionary() const
-- 
2.43.0


From 36a35fc974411efbe7d7c3a1043a7eabae4d6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 39/52] fix: set_dictionary released the old dictionary before
 the new one was in place

---
 src/arrow_array_schema_proxy.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index d898ebc..98b135f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -618,6 +618,13 @@ namespace sparrow
             );
         }
 
+        // Nothing changes if this fails
+        std::unique_ptr<arrow_proxy> new_dictionary;
+        if (array_dictionary != nullptr && schema_dictionary != nullptr)
+        {
+            new_dictionary = std::make_unique<arrow_proxy>(array_dictionary, schema_dictionary);
+        }
+
         auto* array_private_data = get_array_private_data();
         auto* schema_private_data = get_schema_private_data();
         if (array().dictionary != nullptr)
@@ -649,7 +656,7 @@ namespace sparrow
         // the structures themselves belongs to the caller.
         array_private_data->set_dictionary_ownership(false);
         schema_private_data->set_dictionary_ownership(false);
-        update_dictionary();
+        m_dictionary = std::move(new_dictionary);
     }
 
     [[nodiscard]] bool arrow_proxy::is_created_with_sparrow() const
-- 
2.43.0


From 86ab565d5d321aaa2697b23cee182888b7c1e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 40/52] fix: set_offset and set_length of a proxy left stale or
 out of bounds buffers behind

---
 include/sparrow/arrow_array_schema_proxy.hpp |  2 +
 src/arrow_array_schema_proxy.cpp             | 46 +++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 74fd2d2..69e4fac 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -422,6 +422,8 @@ namespace sparrow
 
         [[nodiscard]] size_t get_null_count() const;
 
+        [[nodiscard]] bool are_buffer_sizes_readable() const;
+
         void swap(arrow_proxy& other) noexcept;
     };
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 98b135f..805ab85 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -48,7 +48,43 @@ namespace sparrow
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
             array().n_buffers = static_cast<int64_t>(n_buffers());
         }
-        get_arrow_array_buffers(array(), schema(), m_buffers);
+        if (are_buffer_sizes_readable())
+        {
+            get_arrow_array_buffers(array(), schema(), m_buffers);
+        }
+        else
+        {
+            auto& private_buffers = get_array_private_data()->buffers();
+            m_buffers.clear();
+            for (auto& private_buffer : private_buffers)
+            {
+                m_buffers.emplace_back(private_buffer.data(), private_buffer.size());
+            }
+        }
+    }
+
+    // The size of some buffers is read in other buffers. While an array is edited (length, number of buffers,
+    // then the buffers), these can be too small for its length.
+    bool arrow_proxy::are_buffer_sizes_readable() const
+    {
+        if (!array_created_with_sparrow())
+        {
+            return true;
+        }
+        const auto& private_buffers = static_cast<const arrow_array_private_data*>(array().private_data)->buffers();
+        const size_t count = private_buffers.size();
+        switch (data_type())
+        {
+            case sparrow::data_type::STRING:
+            case sparrow::data_type::BINARY:
+                return count < 2 || private_buffers[1].data() == nullptr
+                       || private_buffers[1].size() >= (length() + offset() + 1) * sizeof(int32_t);
+            case sparrow::data_type::STRING_VIEW:
+            case sparrow::data_type::BINARY_VIEW:
+                return count >= 3 && private_buffers.back().size() >= (count - 3) * sizeof(int64_t);
+            default:
+                return true;
+        }
     }
 
     void arrow_proxy::update_children()
@@ -383,6 +419,7 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set offset on non-sparrow created ArrowArray");
         }
         array().offset = static_cast<int64_t>(offset);
+        update_buffers();
     }
 
     [[nodiscard]] size_t arrow_proxy::n_buffers() const
@@ -742,6 +779,13 @@ namespace sparrow
         {
             // Only the bits in [offset, offset + length) describe elements of the array
             const auto& validity_buffer = buffers().front();
+            if (validity_buffer.data() != nullptr && array_created_with_sparrow()
+                && get_array_private_data()->buffers()[bitmap_buffer_index].size() * 8 < length() + offset())
+            {
+                // The length has been set, but not yet the bitmap
+                array().null_count = -1;
+                return;
+            }
             const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
             const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
             array().null_count = static_cast<int64_t>(bitmap.null_count() - skipped.null_count());
-- 
2.43.0


From 60050ef9ecbf365a44991f5286396b38e7f67f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 41/52] fix: schema-only and array-only edits checked, and
 touched, the wrong structure

---
 include/sparrow/arrow_array_schema_proxy.hpp | 4 ++--
 src/arrow_array_schema_proxy.cpp             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 69e4fac..6831891 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -411,7 +411,7 @@ namespace sparrow
         void update_null_count_of_slice();
         void reset() noexcept;
 
-        [[nodiscard]] bool array_created_with_sparrow() const;
+        [[nodiscard]] SPARROW_API bool array_created_with_sparrow() const;
         [[nodiscard]] bool schema_created_with_sparrow() const;
 
         void validate_array_and_schema() const;
@@ -502,7 +502,7 @@ namespace sparrow
     template <std::ranges::input_range R>
     inline size_t arrow_proxy::insert_bitmap(size_t index, const R& range)
     {
-        if (!is_created_with_sparrow())
+        if (!array_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot modify the bitmap on non-sparrow created ArrowArray");
         }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 805ab85..22e2fa0 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -42,7 +42,7 @@ namespace sparrow
 
     void arrow_proxy::update_buffers()
     {
-        if (is_created_with_sparrow())
+        if (array_created_with_sparrow())
         {
             get_array_private_data()->update_buffers_ptrs();
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
@@ -284,7 +284,7 @@ namespace sparrow
 
     void arrow_proxy::set_format(const std::string_view format)
     {
-        if (!is_created_with_sparrow())
+        if (!schema_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot set format on non-sparrow created ArrowArray");
         }
@@ -399,7 +399,7 @@ namespace sparrow
 
     void arrow_proxy::set_null_count(int64_t null_count)
     {
-        if (!is_created_with_sparrow())
+        if (!array_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot set null_count on non-sparrow created ArrowArray");
         }
-- 
2.43.0


From 7c6da345198a7fe24036a08f418afadc45c3636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 42/52] fix: set_n_buffers left the structure inconsistent when
 it failed

---
 src/arrow_array_schema_proxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 22e2fa0..ae2ab9f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -434,9 +434,9 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set n_buffers on non-sparrow created ArrowArray");
         }
-        array().n_buffers = static_cast<int64_t>(n_buffers);
         arrow_array_private_data* private_data = get_array_private_data();
         private_data->resize_buffers(n_buffers);
+        array().n_buffers = static_cast<int64_t>(n_buffers);
         update_buffers();
     }
 
-- 
2.43.0


From b9ab948655356e5a46688cad0c6e921bd005327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 43/52] fix: taking a view of a constant array wrote to its
 shared private data

---
 include/sparrow/arrow_array_schema_proxy.hpp | 1 +
 src/arrow_array_schema_proxy.cpp             | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 6831891..214665a 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -423,6 +423,7 @@ namespace sparrow
         [[nodiscard]] size_t get_null_count() const;
 
         [[nodiscard]] bool are_buffer_sizes_readable() const;
+        void update_buffer_views();
 
         void swap(arrow_proxy& other) noexcept;
     };
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index ae2ab9f..225fd4d 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -48,6 +48,12 @@ namespace sparrow
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
             array().n_buffers = static_cast<int64_t>(n_buffers());
         }
+        update_buffer_views();
+    }
+
+    // Only reads the structures: they may be shared with other proxies, in other threads.
+    void arrow_proxy::update_buffer_views()
+    {
         if (are_buffer_sizes_readable())
         {
             get_arrow_array_buffers(array(), schema(), m_buffers);
@@ -166,7 +172,7 @@ namespace sparrow
         }
 
         validate_array_and_schema();
-        update_buffers();
+        update_buffer_views();
         update_children();
         update_dictionary();
     }
-- 
2.43.0


From c2001f8057b04034aadd920fcb5807c51faf6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 44/52] fix: building a run-end encoded array from an empty
 range failed a contract

---
 include/sparrow/builder/builder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..551b563 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -407,7 +407,10 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        if(!values.empty())
+        {
+            acc_run_lengths.push_back(i);
+        }
     
         auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
 
-- 
2.43.0


From 990fcf94390875482815f2951d665832721f37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 45/52] fix: lists and strings built from a range with a null
 that holds a value were shifted

---
 include/sparrow/builder/builder_utils.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..01d8a38 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -271,18 +271,8 @@ namespace detail
     std::size_t get_size_save(T&& t)
     {
         using decayed = std::decay_t<T>;
-        if constexpr(is_nullable_like<decayed>)
-        {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
-        }
-        else if constexpr(is_express_layout_desire<decayed>)
+        // the value of a null may hold elements, and these are part of the flattened range (see ensure_value)
+        if constexpr(is_nullable_like<decayed> || is_express_layout_desire<decayed>)
         {
             return get_size_save(t.get());
         }
-- 
2.43.0


From 2beed7bb8ad6ea50fb6d26837f664042fe543415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 46/52] fix: nullables inside nested lists could not be built

---
 include/sparrow/builder/builder_utils.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 01d8a38..842c670 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -300,12 +300,15 @@ namespace detail
     std::vector<std::size_t> where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        // the ranges of nested elements are neither sized nor random access
+        std::size_t i = 0;
+        for (const auto& v : t)
         {
-            if (!t[i].has_value())
+            if (!v.has_value())
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
@@ -318,12 +321,15 @@ namespace detail
     std::vector<std::size_t>  where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        // the ranges of nested elements are neither sized nor random access
+        std::size_t i = 0;
+        for (const auto& v : t)
         {
-            if (!(t[i].get().has_value()))
+            if (!(v.get().has_value()))
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
-- 
2.43.0


From 3de4f324f471cd1eeeff0e3cfe973ba158179ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 47/52] fix: structs inside an encoding wish could not be built

---
 include/sparrow/builder/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index 551b563..4ac6989 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -227,7 +227,7 @@ struct builder<T, dont_enforce_layout, OPTION_FLAGS>
 template< translate_to_struct_layout T, class OPTION_FLAGS>
 struct builder<T, dont_enforce_layout, OPTION_FLAGS>{
     using type = sparrow::struct_array;
-    static constexpr std::size_t n_children = std::tuple_size_v<mnv_t<std::ranges::range_value_t<T>>>;
+    static constexpr std::size_t n_children = std::tuple_size_v<ensured_range_value_t<T>>;
     using tuple_type = ensured_range_value_t<T>;
 
     template<class U>
-- 
2.43.0


From 8e22c4b284ca072e65a1fcae820873d0ea489460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 48/52] fix: strings and binaries with 64-bit offsets were read
 as having 32-bit offsets

---
 .../arrow_array_schema_info_utils.hpp         |  2 ++
 include/sparrow/layout/dispatch.hpp           |  2 ++
 .../variable_size_binary_array.hpp            | 20 +++++++++++++++----
 include/sparrow/types/data_type.hpp           | 18 +++++++++++++----
 src/array_factory.cpp                         |  2 ++
 src/arrow_array_schema_proxy.cpp              |  4 ++++
 src/arrow_interface/arrow_array.cpp           | 10 +++++++---
 7 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
index b4e1398..5e145b2 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
@@ -55,6 +55,8 @@ namespace sparrow
             case data_type::STRUCT:
             case data_type::STRING:
             case data_type::BINARY:
+            case data_type::LARGE_STRING:
+            case data_type::LARGE_BINARY:
             case data_type::FIXED_WIDTH_BINARY:
             case data_type::LARGE_LIST:
             case data_type::LIST_VIEW:
diff --git a/include/sparrow/layout/dispatch.hpp b/include/sparrow/layout/dispatch.hpp
index 90e0a8e..9470537 100644
--- a/include/sparrow/layout/dispatch.hpp
+++ b/include/sparrow/layout/dispatch.hpp
@@ -92,6 +92,8 @@ namespace sparrow
                 return func(unwrap_array<primitive_array<float64_t>>(ar));
             case data_type::STRING:
                 return func(unwrap_array<string_array>(ar));
+            case data_type::LARGE_STRING:
+                return func(unwrap_array<big_string_array>(ar));
             case data_type::RUN_ENCODED:
                 return func(unwrap_array<run_end_encoded_array>(ar));
             case data_type::LIST:
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index f8bf72f..6c051fc 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -81,6 +81,21 @@ namespace sparrow
     using string_array = variable_size_binary_array_impl<std::string, std::string_view, std::int32_t>;
     using big_string_array = variable_size_binary_array_impl<std::string, std::string_view, std::int64_t>;
 
+    namespace detail
+    {
+        template <class T>
+        struct get_data_type_from_array;
+
+        template <>
+        struct get_data_type_from_array<sparrow::big_string_array>
+        {
+            constexpr static sparrow::data_type get()
+            {
+                return sparrow::data_type::LARGE_STRING;
+            }
+        };
+    }
+
     /**
      * Checks whether T is a string_array type.
      */
@@ -300,12 +315,9 @@ namespace sparrow
         : base_type(std::move(proxy))
     {
         const auto type = this->get_arrow_proxy().data_type();
-        SPARROW_ASSERT_TRUE(type == data_type::STRING || type == data_type::BINARY);  // TODO: Add
-                                                                                      // data_type::LARGE_STRING
-                                                                                      // and
-                                                                                      // data_type::LARGE_BINARY
         SPARROW_ASSERT_TRUE(
             ((type == data_type::STRING || type == data_type::BINARY) && std::same_as<OT, int32_t>)
+            || ((type == data_type::LARGE_STRING || type == data_type::LARGE_BINARY) && std::same_as<OT, int64_t>)
         );
     }
 
diff --git a/include/sparrow/types/data_type.hpp b/include/sparrow/types/data_type.hpp
index 243901c..2be8da6 100644
--- a/include/sparrow/types/data_type.hpp
+++ b/include/sparrow/types/data_type.hpp
@@ -156,7 +156,11 @@ namespace sparrow
         SPARSE_UNION,
         RUN_ENCODED,
         DECIMAL,
-        FIXED_WIDTH_BINARY
+        FIXED_WIDTH_BINARY,
+        // Same as STRING with 64-bit offsets
+        LARGE_STRING,
+        // Same as BINARY with 64-bit offsets
+        LARGE_BINARY
     };
 
     /// @returns The data_type value matching the provided format string or `data_type::NA`
@@ -197,11 +201,13 @@ namespace sparrow
                 case 'g':
                     return data_type::DOUBLE;
                 case 'u':
-                case 'U':  // large string
                     return data_type::STRING;
-                case 'z':  // binary
-                case 'Z':  // large binary
+                case 'U':
+                    return data_type::LARGE_STRING;
+                case 'z':
                     return data_type::BINARY;
+                case 'Z':
+                    return data_type::LARGE_BINARY;
                 default:
                     return data_type::NA;
             }
@@ -365,6 +371,10 @@ namespace sparrow
                 return "u";
             case data_type::BINARY:
                 return "z";
+            case data_type::LARGE_STRING:
+                return "U";
+            case data_type::LARGE_BINARY:
+                return "Z";
             case data_type::TIMESTAMP:
                 return "tDm";
             case data_type::LIST:
diff --git a/src/array_factory.cpp b/src/array_factory.cpp
index 4e4302c..3e07018 100644
--- a/src/array_factory.cpp
+++ b/src/array_factory.cpp
@@ -110,6 +110,8 @@ namespace sparrow
                 return detail::make_wrapper_ptr<struct_array>(std::move(proxy));
             case data_type::STRING:
                 return detail::make_wrapper_ptr<string_array>(std::move(proxy)); 
+            case data_type::LARGE_STRING:
+                return detail::make_wrapper_ptr<big_string_array>(std::move(proxy));
             case data_type::RUN_ENCODED:
                 return detail::make_wrapper_ptr<run_end_encoded_array>(std::move(proxy));
             case data_type::DENSE_UNION:
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 225fd4d..e93f730 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -85,6 +85,10 @@ namespace sparrow
             case sparrow::data_type::BINARY:
                 return count < 2 || private_buffers[1].data() == nullptr
                        || private_buffers[1].size() >= (length() + offset() + 1) * sizeof(int32_t);
+            case sparrow::data_type::LARGE_STRING:
+            case sparrow::data_type::LARGE_BINARY:
+                return count < 2 || private_buffers[1].data() == nullptr
+                       || private_buffers[1].size() >= (length() + offset() + 1) * sizeof(int64_t);
             case sparrow::data_type::STRING_VIEW:
             case sparrow::data_type::BINARY_VIEW:
                 return count >= 3 && private_buffers.back().size() >= (count - 3) * sizeof(int64_t);
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index f028483..59cc47c 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -165,6 +165,9 @@ namespace sparrow
             case data_type::STRING:
             case data_type::BINARY:
                 return set_buffers({make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int32_t>(array.buffers[1])[size] : 0)});
+            case data_type::LARGE_STRING:
+            case data_type::LARGE_BINARY:
+                return set_buffers({make_valid_buffer(),make_buffer(1, (size + 1) * 8), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int64_t>(array.buffers[1])[size] : 0)});
             case data_type::LIST:
                 return set_buffers({make_valid_buffer(), make_buffer(1, (size + 1) * 4)});
             case data_type::LARGE_LIST:
@@ -237,12 +240,13 @@ namespace sparrow
         }
         // Likewise for the offsets, which can be omitted when the array is empty.
         const auto type = format_to_data_type(source_schema.format);
+        const bool has_large_offsets = type == data_type::LARGE_STRING || type == data_type::LARGE_BINARY
+                                       || type == data_type::LARGE_LIST;
         const bool has_offsets = type == data_type::STRING || type == data_type::BINARY
-                                 || type == data_type::LIST || type == data_type::LARGE_LIST;
+                                 || type == data_type::LIST || has_large_offsets;
         if (has_offsets && source_array.buffers[1] == nullptr)
         {
-            const std::size_t offset_size = type == data_type::LARGE_LIST ? sizeof(std::int64_t)
-                                                                         : sizeof(std::int32_t);
+            const std::size_t offset_size = has_large_offsets ? sizeof(std::int64_t) : sizeof(std::int32_t);
             buffers_copy[1] = buffer<std::uint8_t>((size + 1) * offset_size, std::uint8_t(0));
         }
         const auto private_data = new arrow_array_private_data(
-- 
2.43.0


From 0d439d165f917a418ea83a96d06ae25632bad983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 49/52] fix: assigning through references or iterators of an
 array without bitmap dereferenced null

---
 .../sparrow/buffer/dynamic_bitset/bitset_reference.hpp    | 7 ++++++-
 include/sparrow/layout/array_bitmap_base.hpp              | 8 ++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ef7585a..ed2d3ca 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -111,7 +111,7 @@ namespace sparrow
     template <class B>
     constexpr bool bitset_reference<B>::operator~() const noexcept
     {
-        return (m_block & m_mask) == 0;
+        return !bool(*this);
     }
 
     template <class B>
@@ -163,6 +163,11 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::set() noexcept
     {
+        if (m_bitset.data() == nullptr)
+        {
+            // Every bit is already considered as set
+            return;
+        }
         bool old_value = m_block & m_mask;
         m_block |= m_mask;
         m_bitset.update_null_count(old_value, m_block & m_mask);
diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index b3ec2ed..e62e62a 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -141,6 +141,14 @@ namespace sparrow
     auto array_bitmap_base_impl<D, is_mutable>::get_bitmap() -> bitmap_type&
         requires is_mutable
     {
+        arrow_proxy& proxy = this->get_arrow_proxy();
+        const auto bitmap_size = proxy.length() + proxy.offset();
+        if (bitmap_size != 0 && proxy.buffers()[0].data() == nullptr && proxy.is_created_with_sparrow())
+        {
+            // No bitmap means that no element is null. An actual one is required to write in it.
+            proxy.resize_bitmap(bitmap_size, true);
+            update();
+        }
         return m_bitmap;
     }
 
-- 
2.43.0


From ae97f2e8761b1dfebb890b4bc06546524e905523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 50/52] fix: swapping elements of an array through their
 references lost one of them

---
 .../buffer/dynamic_bitset/bitset_reference.hpp    | 12 ++++++++++++
 .../variable_size_binary_reference.hpp            | 15 ++++++++++++++-
 include/sparrow/utils/nullable.hpp                |  8 ++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ed2d3ca..cacfae2 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -77,6 +77,10 @@ namespace sparrow
     template <class B>
     bool operator==(const bitset_reference<B>& lhs, bool rhs);
 
+    // Swaps the bits that are referred to, std::swap would keep an alias of one of them
+    template <class B>
+    constexpr void swap(bitset_reference<B>& lhs, bitset_reference<B>& rhs) noexcept;
+
     template <class B>
     constexpr auto bitset_reference<B>::operator=(const self_type& rhs) noexcept -> self_type&
     {
@@ -192,4 +196,12 @@ namespace sparrow
     {
         return bool(lhs) == rhs;
     }
+
+    template <class B>
+    constexpr void swap(bitset_reference<B>& lhs, bitset_reference<B>& rhs) noexcept
+    {
+        const bool tmp = lhs;
+        lhs = bool(rhs);
+        rhs = tmp;
+    }
 }
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
index 6ca1914..6d3bfaf 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
@@ -91,6 +91,10 @@ namespace sparrow
         L* p_layout = nullptr;
         size_type m_index = size_type(0);
     };
+
+    // Swaps the elements that are referred to, std::swap would keep an alias of one of them
+    template <class L>
+    void swap(variable_size_binary_reference<L>& lhs, variable_size_binary_reference<L>& rhs);
 }
 
 namespace std
@@ -224,5 +228,14 @@ namespace sparrow
     {
         return static_cast<size_type>(offset(index));
     }
-}
 
+    template <class L>
+    void swap(variable_size_binary_reference<L>& lhs, variable_size_binary_reference<L>& rhs)
+    {
+        using value_type = typename variable_size_binary_reference<L>::value_type;
+        const value_type lhs_value(lhs.cbegin(), lhs.cend());
+        const value_type rhs_value(rhs.cbegin(), rhs.cend());
+        lhs = rhs_value;
+        rhs = lhs_value;
+    }
+}
diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..4bd95dd 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -476,7 +476,7 @@ namespace sparrow
         template <class U>
         constexpr value_type value_or(U&& default_value) &&;
 
-        void swap(self_type& other) noexcept;
+        void swap(self_type& other) noexcept(std::is_nothrow_swappable_v<T>);
         void reset() noexcept;
 
     private:
@@ -491,7 +491,7 @@ namespace sparrow
     };
 
     template <class T, class B>
-    constexpr void swap(nullable<T, B>& lhs, nullable<T, B>& rhs) noexcept;
+    constexpr void swap(nullable<T, B>& lhs, nullable<T, B>& rhs) noexcept(std::is_nothrow_swappable_v<T>);
 
     template <class T, class B>
     constexpr bool operator==(const nullable<T, B>& lhs, nullval_t) noexcept;
@@ -698,7 +698,7 @@ namespace sparrow
     }
 
     template <class T, mpl::boolean_like B>
-    void nullable<T, B>::swap(self_type& other) noexcept
+    void nullable<T, B>::swap(self_type& other) noexcept(std::is_nothrow_swappable_v<T>)
     {
         using std::swap;
         swap(m_value, other.m_value);
@@ -721,7 +721,7 @@ namespace sparrow
     }
 
     template <class T, class B>
-    constexpr void swap(nullable<T, B>& lhs, nullable<T, B>& rhs) noexcept
+    constexpr void swap(nullable<T, B>& lhs, nullable<T, B>& rhs) noexcept(std::is_nothrow_swappable_v<T>)
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From cb9cf12e9f36cddff9244fcee8cb9465394a68c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 51/52] fix: buffer sizes of decimals and of 32 and 128-bit
 temporal types

---
 src/arrow_interface/arrow_array.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 59cc47c..14ae743 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -95,7 +95,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strchr(std::strchr(format, ',') + 1, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -110,6 +110,19 @@ namespace sparrow
             return num_bits / 8;
         }       
     }
+
+    // get the width of date, time, timestamp, duration and interval types from format
+    std::size_t num_bytes_for_temporal(const std::string_view format)
+    {
+        //    tdD, tts, ttm, tiM -> 4 bytes
+        //    tin                -> 16 bytes
+        //    any other          -> 8 bytes
+        if (format == "tdD" || format == "tts" || format == "ttm" || format == "tiM")
+        {
+            return 4;
+        }
+        return format == "tin" ? 16 : 8;
+    }
     
 
     void get_arrow_array_buffers(
@@ -184,9 +197,9 @@ namespace sparrow
             case data_type::DENSE_UNION:
                 return set_buffers({make_buffer(0, size), make_buffer(1, size*4)});
             case data_type::TIMESTAMP:
-                return set_buffers({make_valid_buffer(), make_buffer(1, size * 8)});
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))});
             case data_type::DECIMAL:
-                return set_buffers({make_valid_buffer(), make_buffer(1, size * 16)}); 
+                return set_buffers({make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))});
             case data_type::FIXED_WIDTH_BINARY:
                 return set_buffers({make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))});
             case data_type::STRING_VIEW:
-- 
2.43.0


From b99ecc5ab481a504b2a05fde88ce5392489f198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 52/52] fix: maps have a validity bitmap and an offsets buffer

---
 .../arrow_interface/arrow_array_schema_info_utils.hpp        | 2 +-
 src/arrow_interface/arrow_array.cpp                          | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
index 5e145b2..a7d1db7 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
@@ -64,8 +64,8 @@ namespace sparrow
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRING_VIEW:
             case data_type::BINARY_VIEW:
-                return true;
             case data_type::MAP:
+                return true;
             case data_type::NA:
             case data_type::SPARSE_UNION:
             case data_type::DENSE_UNION:
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 14ae743..a572019 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -156,7 +156,6 @@ namespace sparrow
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-            case data_type::MAP:
                 return set_buffers({});
             case data_type::BOOL:   
                 return set_buffers({make_valid_buffer(), make_buffer(1, (size + 7) / 8)});
@@ -182,6 +181,7 @@ namespace sparrow
             case data_type::LARGE_BINARY:
                 return set_buffers({make_valid_buffer(),make_buffer(1, (size + 1) * 8), make_buffer(2, array.buffers[1] != nullptr ? static_const_ptr_cast<int64_t>(array.buffers[1])[size] : 0)});
             case data_type::LIST:
+            case data_type::MAP:
                 return set_buffers({make_valid_buffer(), make_buffer(1, (size + 1) * 4)});
             case data_type::LARGE_LIST:
                 return set_buffers({make_valid_buffer(), make_buffer(1, (size + 1) * 8)});
@@ -256,7 +256,8 @@ namespace sparrow
         const bool has_large_offsets = type == data_type::LARGE_STRING || type == data_type::LARGE_BINARY
                                        || type == data_type::LARGE_LIST;
         const bool has_offsets = type == data_type::STRING || type == data_type::BINARY
-                                 || type == data_type::LIST || has_large_offsets;
+                                 || type == data_type::LIST || type == data_type::MAP
+                                 || has_large_offsets;
         if (has_offsets && source_array.buffers[1] == nullptr)
         {
             const std::size_t offset_size = has_large_offsets ? sizeof(std::int64_t) : sizeof(std::int32_t);
-- 
2.43.0

