From 61057387c505561eb5e287f018b9d65bc5309924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 01/52] fix: qualify range-v3 names so array_view.hpp and
 linked_list.hpp compile next to xme::ranges

---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 80e60d6b1bc6f8084f883bb34d8eaeefba057b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 02/52] fix: find reads SIMD blocks with unaligned,
 aliasing-safe loads

---
 include/xme/core/algorithm/find.hpp | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..caa0f57 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include <bit>
+#include <cstdint>
+#include <cstring>
 #include <execution>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
@@ -9,56 +11,63 @@
 
 namespace xme {
 namespace detail {
+template<typename T>
+XME_INLINE auto load_as(const void* const data) -> T {
+    T result;
+    std::memcpy(&result, data, sizeof(T));
+    return result;
+}
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
-        const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i needle     = _mm256_set1_epi8(load_as<std::int8_t>(value));
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
-        const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i needle     = _mm256_set1_epi16(load_as<std::int16_t>(value));
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
-        const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i needle    = _mm256_set1_epi32(load_as<std::int32_t>(value));
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
-        const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i needle    = _mm256_set1_epi64x(load_as<std::int64_t>(value));
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
-        const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i needle     = _mm_set1_epi8(load_as<std::int8_t>(value));
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
-        const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i needle     = _mm_set1_epi16(load_as<std::int16_t>(value));
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
-        const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i needle    = _mm_set1_epi32(load_as<std::int32_t>(value));
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
-        const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i needle    = _mm_set1_epi64x(load_as<std::int64_t>(value));
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From fc772bc377c7a95c20ebf767ac7b10b0828c8533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 03/52] fix: find uses the bytewise SIMD path only for types
 whose equality is bytewise

---
 include/xme/core/algorithm/find.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index caa0f57..a7ee720 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <bit>
+#include <concepts>
 #include <cstdint>
 #include <cstring>
 #include <execution>
@@ -11,6 +12,12 @@
 
 namespace xme {
 namespace detail {
+//! Types whose equality is the equality of their bytes
+template<typename T>
+concept CBitwiseEquality =
+  (std::integral<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
+  && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+
 template<typename T>
 XME_INLINE auto load_as(const void* const data) -> T {
     T result;
@@ -83,9 +90,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    if constexpr(::ranges::contiguous_iterator<I> && detail::CBitwiseEquality<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(compare + readable_bytes <= s) {
-- 
2.43.0


From cf227ddcac5fe295b49eed7115c56833136b6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 04/52] fix: reverse works for contiguous elements of any size,
 not only single bytes

---
 include/xme/core/algorithm/reverse.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..cfa54dd 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -49,8 +48,8 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+                 && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 7661d4f731e5bf1ee709019632db5fca90b996a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 05/52] fix: uninitialized_copy_a rolls back the elements it
 constructed

---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From 7a64fe77850eca15960e84ea2fb896133677b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 06/52] fix: Array relocates its elements by constructing them
 in the new storage and destroying the old ones

---
 include/xme/container/array.hpp | 69 ++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..ec69c65 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -282,28 +282,51 @@ public:
     }
 
 private:
-    constexpr void grow_storage(size_type n) {
-        const auto old_size = this->size();
-        pointer new_begin   = m_allocator.allocate(n);
+    //! Constructs the elements of [first, last) in the uninitialized memory at `out`.
+    //! They are moved if that can't throw or if they can't be copied.
+    //! If a constructor throws, the already constructed elements are destroyed.
+    constexpr auto uninitialized_move(pointer first, pointer last, pointer out) -> pointer {
+        pointer curr = out;
+        try {
+            for(; first != last; ++first, (void)++curr)
+                alloc_traits::construct(m_allocator, curr, std::move_if_noexcept(*first));
+        }
+        catch(...) {
+            ranges::destroy_a(out, curr, m_allocator);
+            throw;
+        }
+        return curr;
+    }
 
-        std::ranges::move(*this, new_begin);
+    //! Destroys every element and adopts a new storage.
+    constexpr void replace_storage(pointer new_begin, pointer new_end,
+                                   pointer new_storage_end) noexcept {
+        ranges::destroy_a(*this, m_allocator);
         if(m_data.begin)
             m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
-        m_data.end         = new_begin + old_size;
-        m_data.storage_end = new_begin + n;
+        m_data.end         = new_end;
+        m_data.storage_end = new_storage_end;
     }
 
+    //! Moves the first `count` elements to a new storage of capacity n and destroys the others.
+    constexpr void relocate_storage(size_type n, size_type count) {
+        pointer new_begin = m_allocator.allocate(n);
+        try {
+            uninitialized_move(m_data.begin, m_data.begin + count, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        replace_storage(new_begin, new_begin + count, new_begin + n);
+    }
+
+    constexpr void grow_storage(size_type n) { relocate_storage(n, this->size()); }
+
     constexpr void shrink_storage(size_type n) {
         size_type elements_to_move = std::min(this->size(), n);
-        pointer new_begin          = m_allocator.allocate(n);
-
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + elements_to_move;
-        m_data.storage_end = new_begin + n;
+        relocate_storage(n, elements_to_move);
     }
 
     template<typename... Args>
@@ -312,21 +335,21 @@ private:
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        pointer first                   = new_start + elements_before;
+        pointer last                    = first;
         try {
-            alloc_traits::construct(
-              m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            // Constructed before anything is moved, because args may refer to our own elements
+            alloc_traits::construct(m_allocator, first, std::forward<Args>(args)...);
+            ++last;
+            last = uninitialized_move(m_data.begin + elements_before, m_data.end, last);
+            uninitialized_move(m_data.begin, m_data.begin + elements_before, new_start);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(first, last, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_start;
-        m_data.end         = new_start + (curr_size + 1);
-        m_data.storage_end = new_start + new_size;
+        replace_storage(new_start, new_start + (curr_size + 1), new_start + new_size);
         return begin() + elements_before;
     }
 
-- 
2.43.0


From 5f0533e5a76e3b8680e5c61c44b811a94a1bda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 07/52] fix: Array::emplace_back and insert accept a reference
 to one of the array's own elements

---
 include/xme/container/array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index ec69c65..1906e73 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,12 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        // Created before anything is moved, because value may refer to one of our own elements
+        T tmp(std::forward<U>(value));
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -253,7 +255,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 2261d93ee1a138ce8f3426f93b491b28a569554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 08/52] fix: Array::insert of a range constructs the new
 elements once and keeps the others alive

---
 include/xme/container/array.hpp | 36 +++++++++++----------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 1906e73..bbaa0c6 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,7 +2,9 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
+#include <utility>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
 #include <xme/ranges/uninitialized.hpp>
@@ -181,31 +183,17 @@ public:
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
-        auto p             = const_cast<pointer>(pos.operator->());
-        size_type elements = std::ranges::distance(first, last);
-        if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
-
-            // Must be constructed first, so if it throws we don't break the original
-            // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
-            std::ranges::swap(m_data, tmp.m_data);
-
-            return begin() + elements_before;
-        }
+        const size_type elements        = std::ranges::distance(first, last);
+        const size_type elements_before = pos.operator->() - m_data.begin;
+        if(this->size() + elements > capacity())
+            grow_storage(capacity() + elements);
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
-        return p;
+        // Constructed after the last element, so if it throws we don't break the original array
+        auto&& [_, out] = xme::ranges::uninitialized_copy_a(
+          first, last, m_data.end, m_data.storage_end, m_allocator);
+        const pointer old_end = std::exchange(m_data.end, out);
+        std::rotate(m_data.begin + elements_before, old_end, m_data.end);
+        return begin() + elements_before;
     }
 
     //! Inserts [begin(range), end(range)) in a specified position..
-- 
2.43.0


From 351166cab898531bf44e9cdcdfaa4363cf0c17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 09/52] fix: Array::erase moves the following elements down and
 destroys the last ones

---
 include/xme/container/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index bbaa0c6..20befa4 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -254,9 +254,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::ranges::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -265,9 +265,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
+        if(elements == 0)
+            return p;
+        std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
+        ranges::destroy_n_a(m_data.end, elements, m_allocator);
         return p;
     }
 
-- 
2.43.0


From e495f0c7660d5e8ef8ab9891dfe3873bd2c7981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 10/52] fix: Array does not consume a single-pass range by
 measuring it

---
 include/xme/container/array.hpp | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 20befa4..8b1f567 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -64,6 +64,13 @@ public:
       Array(list.begin(), list.end(), alloc) {}
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+        requires(!std::forward_iterator<Iter>)
+    constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
+      Array(alloc) {
+        push_back(std::move(first), last);
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
       Array(std::ranges::distance(first, last), alloc) {
         auto&& [_, out] = xme::ranges::uninitialized_copy_a(
@@ -182,6 +189,19 @@ public:
     //! It is recommended to never throw on move construcor/assignment.
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+        requires(!std::forward_iterator<Iter>)
+    constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
+        Array tmp(std::move(first), last, m_allocator);
+        return insert(pos,
+                      std::make_move_iterator(tmp.m_data.begin),
+                      std::make_move_iterator(tmp.m_data.end));
+    }
+
+    //! Inserts [first, last) in a specified position..
+    //! If the copy/move constructor throw, the state is unspecified.
+    //! It is recommended to never throw on move construcor/assignment.
+    //! @returns an iterator to the first inserted element.
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         const size_type elements        = std::ranges::distance(first, last);
         const size_type elements_before = pos.operator->() - m_data.begin;
@@ -215,14 +235,15 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
-        size_type new_capacity = this->size() + std::ranges::distance(first, last);
-        if(new_capacity > capacity()) {
-            grow_storage(new_capacity);
-        }
-        for(; first != last; ++first) {
-            alloc_traits::construct(m_allocator, m_data.end, *first);
-            ++m_data.end;
+        // Measuring a single-pass range would consume it
+        if constexpr(std::forward_iterator<Iter>) {
+            size_type new_capacity = this->size() + std::ranges::distance(first, last);
+            if(new_capacity > capacity()) {
+                grow_storage(new_capacity);
+            }
         }
+        for(; first != last; ++first)
+            emplace_back(*first);
     }
 
     //! Pushes a range [begin(range), end(range)) to the end of the array.
-- 
2.43.0


From b08c549f657006210a007354bb613b49e75bb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 11/52] fix: AlignedData can hold types that are not default
 constructible

---
 include/xme/container/aligned_data.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..24ed171 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -2,6 +2,10 @@
 #include <array>
 #include <bit>
 #include <concepts>
+#include <cstddef>
+#include <memory>
+#include <type_traits>
+#include <utility>
 #include <xme/setup.hpp>
 
 namespace xme {
@@ -22,12 +26,11 @@ public:
     using pointer         = T*;
     using const_pointer   = const T*;
 
-    constexpr AlignedData() noexcept
-        requires std::default_initializable<T>
-    = default;
+    constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
-    constexpr AlignedData(Args&&... args) noexcept {
+        requires(sizeof...(Args) > 0) && std::constructible_from<T, Args...>
+    constexpr AlignedData(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From d9f463ae3caa7aa6c855340b3c758c75484c87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 12/52] fix: LinkedList constructors release the nodes they
 created when an element throws

---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From 8914bb26aa94d9ebaea6f917e5927a9fafd98feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 13/52] fix: Delegate can be copied

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..2e18238 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -197,8 +197,8 @@ public:
 
 private:
     AnyData m_storage{};
-    R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    R (*m_callable)(const AnyData&, Args...)                = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From e438f178cddc5c4f4b9274781572102f0c039aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 14/52] fix: Delegate accepts functions and lvalue functors as
 its target

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 2e18238..e98408d 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From 06ebdff46ce81202a139ccbe06b1c2fe0c131f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 15/52] fix: Delegate returning void accepts a target that
 returns a value

---
 include/xme/core/functional/delegate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e98408d..40dd6fc 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -59,7 +59,10 @@ public:
           sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
-            return std::invoke(*handle(functor), std::forward<Args>(args)...);
+            if constexpr(std::is_void_v<R>)
+                std::invoke(*handle(functor), std::forward<Args>(args)...);
+            else
+                return std::invoke(*handle(functor), std::forward<Args>(args)...);
         }
 
         static constexpr auto handle(const AnyData& functor) -> Functor* {
-- 
2.43.0


From 0d7b6817e249aecc341acd89fedf75162a0dfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 16/52] fix: Delegate::handle returns the functor also when it
 is not stored locally

---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 40dd6fc..b0f2f43 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -193,7 +193,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From 0977b03c6c22fc530ed7a1eace7b96b4317b09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 17/52] fix: Delegate stores locally only functors that can be
 moved bytewise

---
 include/xme/core/functional/delegate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index b0f2f43..d9e931c 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,8 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;  // the storage is moved bytewise
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             if constexpr(std::is_void_v<R>)
-- 
2.43.0


From 2ec977d6dd7bd8735fe50ad8e46ce56d94884c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 18/52] fix: Delegate assignment lets the exceptions of its
 target propagate

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index d9e931c..fd4a88b 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -153,7 +153,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -173,7 +173,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From 9645ca922c627f0951f53850607dd7379c39d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 19/52] fix: ReverseIterator orders positions in reverse

---
 include/xme/core/iterators/reverse_iterator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..f939c99 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -121,7 +121,11 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
     friend constexpr bool operator==(const ReverseIterator<It>& lhs,
@@ -132,7 +136,7 @@ public:
     template<typename U>
     friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
                                       const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        return rhs.operator->() <=> lhs.operator->();
     }
 
 private:
-- 
2.43.0


From e2281bf389eff40465ce38460cd0b1cc902db27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 20/52] fix: ReverseIterator compares positions, not the
 addresses of the elements before them

---
 include/xme/core/iterators/reverse_iterator.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index f939c99..e191d67 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -127,16 +127,16 @@ public:
         return rhs.m_current <=> m_current;
     }
 
-    template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+    template<std::bidirectional_iterator U>
+        requires(requires(const It& l, const U& r) { l == r; })
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
-    template<typename U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return rhs.operator->() <=> lhs.operator->();
+    template<std::bidirectional_iterator U>
+        requires(requires(const It& l, const U& r) { r <=> l; })
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <=> m_current;
     }
 
 private:
-- 
2.43.0


From d11ab0f123bdcaa9c7546b8e793d55639463766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 21/52] fix: ConstIterator converts from a ConstIterator of a
 convertible iterator

---
 include/xme/core/iterators/const_iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..294343e 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -38,7 +38,8 @@ public:
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept :
+      m_current(std::move(other.m_current)) {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
@@ -197,6 +198,9 @@ public:
     }
 
 private:
+    template<std::input_iterator>
+    friend class ConstIterator;
+
     It m_current{};
 };
 
-- 
2.43.0


From 14eb283174f79a3dd2e8388e831d63682521b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 22/52] fix: SharedLibrary forgets the library it closed, and
 closes it before opening another

---
 include/xme/hal/shared_library.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..64cd3ac 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     constexpr void open(std::string_view lib_name) {
+        close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
@@ -47,7 +48,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From 62ba511c421a58b05095318f28956a395870bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 23/52] fix: SharedLibrary::proc_address returns the requested
 type, and names need no terminator

---
 include/xme/hal/shared_library.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 64cd3ac..892204e 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,5 +1,8 @@
 #pragma once
+#include <string>
 #include <string_view>
+#include <utility>
+#include <concepts>
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
@@ -41,7 +44,7 @@ public:
         close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -56,10 +59,10 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From d0c0a15fae1651dec6f7af761ed6e7b36ee8bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 24/52] fix: environment variable names and values need no
 terminator

---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From 1bc962a18470d8ed84fec59eb524e76baf3372f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 25/52] fix: off-centre perspective divides by the frustum
 width

---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..6ce408a 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From ecf484c12a6e67ccb461c12f0bf1d5563c6625ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 26/52] fix: orthographic projections scale depth and translate
 in the last column

---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 6ce408a..deff006 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 02182d302ebddd65588b012584a6822ab3b1ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 27/52] fix: perspective uses the left handed projection under
 XME_MATH_CLIP_LH

---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index deff006..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From c0c6446c869de52a3219b2c7d14991602b3d3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 28/52] fix: a 4x4 Matrix can be created from one of another
 element type

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..0e48752 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -65,7 +65,7 @@ public:
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
-- 
2.43.0


From eaad09a741a76b4e545972c2d71c4f1f1dca825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 29/52] fix: Matrix products accept an operand of another
 element type

---
 include/xme/math/matrices/matrix4x4.hpp | 10 +++++-----
 include/xme/math/matrix.hpp             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 0e48752..dca0f1d 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -90,10 +90,10 @@ public:
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, 4>& v) const noexcept -> column_type {
         return {
-            math::dot(row(0), v),
-            math::dot(row(1), v),
-            math::dot(row(2), v),
-            math::dot(row(3), v),
+            math::dot(row(0), row_type(v)),
+            math::dot(row(1), row_type(v)),
+            math::dot(row(2), row_type(v)),
+            math::dot(row(3), row_type(v)),
         };
     }
 
@@ -104,7 +104,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < 4; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..9aa9c5e 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -90,7 +90,7 @@ public:
     constexpr auto operator*(const Vector<U, Cols>& v) const noexcept -> column_type {
         column_type result;
         for(std::size_t i = 0; i < Rows; ++i)
-            result[i] = math::dot(this->row(i), v);
+            result[i] = math::dot(this->row(i), row_type(v));
         return result;
     }
     template<typename U, std::size_t Rows2>
@@ -101,7 +101,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < Rows; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = math::dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
-- 
2.43.0


From bc6b69383abc78a7a5cc29e0964ca7e9a4207407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 30/52] fix: rotate does not truncate an integral axis

---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..15c22be 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>{n} * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From 819737539f279a40d899ff6d7f4945bff3f6cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 31/52] fix: an rvalue Pair or Tuple gives access to its rvalue
 reference elements

---
 include/xme/container/pair.hpp   | 4 ++--
 private/container/tuple_base.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..46fe8b2 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -43,7 +43,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -58,7 +58,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 #endif
 
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From e6559108b725961b376eeaac9aae2ed2c989e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 32/52] fix: tuple_cat is not ambiguous with
 std::forward_as_tuple

---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 6afd65bd8b948656e12d6629f61f0b993ad1b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 33/52] fix: Heap can be created from a range that does not
 know its size

---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From 672ded9e6288f96e74c7106435bf29e9c29d87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 34/52] fix: bindFront and bindBack compile, and bindBack
 passes the bound arguments last

---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..401cd86 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -149,7 +149,7 @@ constexpr auto bindFront(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);
     };
 }
 #endif
@@ -173,7 +173,7 @@ constexpr auto bindBack(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, std::forward<T>(call_args)..., xme::forward_like<Self>(bound_args)...);
     };
 }
 #endif
-- 
2.43.0


From de16976da9f336bc4b8846d6f63a51c235e0ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 35/52] fix: exceptions thrown while copying bound values reach
 the caller

---
 include/xme/core/functional/bind.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index 401cd86..bb94ad9 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,19 +12,19 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From 263b1251ef72a51d775b32378b27268f3a8dbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 36/52] fix: tuples compile with explicit object parameters,
 rvalue pairs keep rvalue references

---
 include/xme/container/pair.hpp   | 10 ++++++++--
 private/container/tuple_base.hpp |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 46fe8b2..721ccd0 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -21,14 +21,20 @@ public:
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, 0>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).first;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<std::remove_reference_t<Self>>)
+            return (self.first);
+        else
+            return static_cast<T&&>(self.first);
     }
 
     template<typename Self>
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, 1>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).second;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<std::remove_reference_t<Self>>)
+            return (self.second);
+        else
+            return static_cast<U&&>(self.second);
     }
 #else
     [[nodiscard]]
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..40f5151 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -21,7 +21,14 @@ struct TupleElement {
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, I>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).value;
+        // self is the whole tuple, which has a value in every element
+        using Element = std::conditional_t<std::is_const_v<std::remove_reference_t<Self>>,
+                                           const TupleElement,
+                                           TupleElement>;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<Element>)
+            return (static_cast<Element&>(self).value);
+        else
+            return static_cast<T&&>(static_cast<Element&>(self).value);
     }
 #else
     [[nodiscard]]
-- 
2.43.0


From c33e24f7e8f01219d58fc34b0ac4ac9bc8e6376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 37/52] fix: find and reverse accept contiguous ranges with any
 sentinel

---
 include/xme/core/algorithm/find.hpp    | 3 ++-
 include/xme/core/algorithm/reverse.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index a7ee720..8339c49 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -90,7 +90,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && detail::CBitwiseEquality<T>
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S>
+                 && detail::CBitwiseEquality<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index cfa54dd..dbe7971 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "range/v3/range/concepts.hpp"
+#include <concepts>
 #include <cstdint>
 #include <immintrin.h>
 #include <x86intrin.h>
@@ -48,7 +49,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
                  && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
-- 
2.43.0


From e247c95f19a12f618bab5660b9c45b67ace20ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 38/52] fix: find and reverse work in constant expressions in
 every SIMD setting

---
 include/xme/core/algorithm/find.hpp    | 3 ++-
 include/xme/core/algorithm/reverse.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 8339c49..ff8d95f 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstring>
 #include <execution>
+#include <type_traits>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
 #include <xme/hal/simd_detection.hpp>
@@ -95,7 +96,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(!std::is_constant_evaluated() && compare + readable_bytes <= s) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index dbe7971..d3382f0 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -2,6 +2,7 @@
 #include "range/v3/range/concepts.hpp"
 #include <concepts>
 #include <cstdint>
+#include <type_traits>
 #include <immintrin.h>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
@@ -54,7 +55,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-        while(count--) {
+        while(!std::is_constant_evaluated() && count--) {
             detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(s));
             i += readable_bytes;
             s -= readable_bytes;
-- 
2.43.0


From e4a6084f904661f3dc659c7b0d5502687fc79b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 39/52] fix: find and reverse compile with SSE2, SSE3 and SSSE3
 only

---
 include/xme/core/algorithm/find.hpp    | 8 +++++++-
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index ff8d95f..17d93a7 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -75,7 +75,13 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(load_as<std::int64_t>(value));
-        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
+#    if XME_SIMD_USE_SSE41
+        const __m128i comp = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
+#    else
+        // SSE2 compares halves; an element is equal if both of its halves are
+        const __m128i half = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
+        const __m128i comp = _mm_and_si128(half, _mm_shuffle_epi32(half, _MM_SHUFFLE(2, 3, 0, 1)));
+#    endif
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index d3382f0..da9d8c8 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -30,7 +30,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -47,7 +47,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
     if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
-- 
2.43.0


From bb7d6eb172afa30684f9a5cc4c17c3ac4940b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 40/52] fix: ConstIterator of a single-pass iterator is an
 iterator

---
 include/xme/core/iterators/const_iterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 294343e..292c38b 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -59,6 +59,8 @@ public:
         return *this;
     }
 
+    constexpr void operator++(int) noexcept { ++m_current; }
+
     constexpr auto operator++(int) noexcept -> ConstIterator
         requires std::forward_iterator<It>
     {
-- 
2.43.0


From 1adb09d3293931bd33cffc8843b09ef8dcedac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 41/52] fix: matrices accept columns of mixed element types

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index dca0f1d..93436a1 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,7 +61,7 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index 9aa9c5e..f266612 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From fcb704d2ae8792e950c5ec38d12993cbdd1ce117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 42/52] fix: to_unsigned accepts 128-bit integers in strict
 mode

---
 include/xme/core/utility/to_unsigned.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..b887686 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,12 +8,17 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
-XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
-    return static_cast<unsigned __int128>(n);
+#ifdef __SIZEOF_INT128__
+namespace detail {
+    __extension__ typedef __int128 int128;
+    __extension__ typedef unsigned __int128 uint128;
+}  // namespace detail
+
+XME_INLINE constexpr auto to_unsigned(detail::int128 n) -> detail::uint128 {
+    return static_cast<detail::uint128>(n);
 }
 
-XME_INLINE constexpr auto to_unsigned(unsigned __int128 n) -> unsigned __int128 {
+XME_INLINE constexpr auto to_unsigned(detail::uint128 n) -> detail::uint128 {
     return n;
 }
 #endif
-- 
2.43.0


From 74d0f8167b423a78cb49906817be0abff2bfd229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 43/52] fix: quaternion.hpp includes the comparison categories
 its operators need

---
 include/xme/math/quaternion.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index d736cbb..279f043 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <compare>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/concepts.hpp>
 
-- 
2.43.0


From 407e866c5425e2971658ad82bde4bac45e567d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 44/52] fix: components of vectors and quaternions can be
 indexed in constant expressions

Pointer arithmetic from one member to another is undefined, and constant evaluation rejects it.
---
 include/xme/math/quaternion.hpp      | 4 ++--
 include/xme/math/vectors/vector2.hpp | 4 ++--
 include/xme/math/vectors/vector3.hpp | 4 ++--
 include/xme/math/vectors/vector4.hpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index 279f043..a9cd838 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -37,12 +37,12 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
-        return (&w)[i];
+        return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
-        return (&w)[i];
+        return i == 0 ? w : i == 1 ? x : i == 2 ? y : z;
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector2.hpp b/include/xme/math/vectors/vector2.hpp
index e6003b5..8d1f1fd 100644
--- a/include/xme/math/vectors/vector2.hpp
+++ b/include/xme/math/vectors/vector2.hpp
@@ -76,13 +76,13 @@ struct Vector<T, 2> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : y;
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : y;
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector3.hpp b/include/xme/math/vectors/vector3.hpp
index 3bb85fe..07f3d56 100644
--- a/include/xme/math/vectors/vector3.hpp
+++ b/include/xme/math/vectors/vector3.hpp
@@ -89,13 +89,13 @@ struct Vector<T, 3> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : i == 1 ? y : z;
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : i == 1 ? y : z;
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector4.hpp b/include/xme/math/vectors/vector4.hpp
index 989004c..dde9961 100644
--- a/include/xme/math/vectors/vector4.hpp
+++ b/include/xme/math/vectors/vector4.hpp
@@ -106,13 +106,13 @@ struct Vector<T, 4> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        return i == 0 ? x : i == 1 ? y : i == 2 ? z : w;
     }
 
     [[nodiscard]]
-- 
2.43.0


From 5a910293fa0b42f4dd78f830d7aadd293f1bd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 45/52] fix: assigning a list to an array keeps the array's
 allocator

The temporary was made with a default constructed allocator, which swap then exchanged with the array's own.
---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 8b1f567..733c4ae 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -101,7 +101,7 @@ public:
     }
 
     constexpr auto operator=(std::initializer_list<T> list) -> Array& {
-        Array(list).swap(*this);
+        Array(list, m_allocator).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 3b6c344110d580fbc49e47e0241cb33ae84bfc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 46/52] fix: the standard library is detected

libc++ defines _LIBCPP_VERSION, and neither library says anything before one of its headers is included.
---
 include/xme/hal/std_detection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/std_detection.hpp b/include/xme/hal/std_detection.hpp
index 1ef2409..9f0c190 100644
--- a/include/xme/hal/std_detection.hpp
+++ b/include/xme/hal/std_detection.hpp
@@ -1,6 +1,7 @@
 #pragma once
+#include <version>
 
-#if defined(__LIBCPP_VERSION)
+#if defined(_LIBCPP_VERSION)
 #    define XME_LIBSTD_CLANG
 #elif defined(__GLIBCXX__)
 #    define XME_LIBSTD_GCC
-- 
2.43.0


From b5635567636c864fc92206077cad6d8858e1c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 47/52] fix: shared libraries are available on Apple's
 platforms

There is no macro XME_PLATFORM_MAC; without it the class does not compile there.
---
 include/xme/hal/shared_library.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 892204e..f475463 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -6,7 +6,7 @@
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
 #    include <dlfcn.h>
 #endif
 
@@ -43,14 +43,14 @@ public:
     constexpr void open(std::string_view lib_name) {
         close();
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         if(m_library)
             dlclose(m_library);
         m_library = nullptr;
@@ -61,14 +61,14 @@ public:
     [[nodiscard]]
     constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
         return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
 private:
 #if XME_PLATFORM_WINDOWS
-#elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+#elif XME_PLATFORM_LINUX || XME_PLATFORM_APPLE
     void* m_library = nullptr;
 #endif
 };
-- 
2.43.0


From d00dde9e69f3293aade4239c07038b1a5c77ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 48/52] fix: assigning a Pair may throw if assigning its
 components may

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 721ccd0..92b653b 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(std::is_nothrow_assignable_v<T&, decltype(get<0>(std::forward<P>(p)))>
+               && std::is_nothrow_assignable_v<U&, decltype(get<1>(std::forward<P>(p)))>) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From 13e3da1bd463032249e294afdc6cef7d005ef327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 49/52] fix: let exceptions of comparisons leave find(range)

---
 include/xme/core/algorithm/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 17d93a7..8967ffd 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -121,7 +121,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #endif
 }
 template<typename ExecutionPolicy = std::execution::unsequenced_policy, ::ranges::input_range R>
-XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) noexcept {
+XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) {
     return xme::find<ExecutionPolicy>(::ranges::begin(range), ::ranges::end(range), value);
 }
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From cf4fe16b9d99cd366ab8590f95863d2885a4adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 50/52] fix: let exceptions of swaps leave reverse

---
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index da9d8c8..2cd2e5e 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -46,7 +46,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 }  // namespace detail
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
-XME_INLINE constexpr auto reverse(I i, S s) noexcept {
+XME_INLINE constexpr auto reverse(I i, S s) {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #endif
 }
 template<::ranges::input_range R>
-XME_INLINE constexpr auto reverse(R&& range) noexcept {
+XME_INLINE constexpr auto reverse(R&& range) {
     return xme::reverse(::ranges::begin(range), ::ranges::end(range));
 }
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From 21f92015f8c36b0e8718385323609496e7bd3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 51/52] fix: the value type of Array's constant iterator is not
 constant

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 733c4ae..0721bec 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -396,7 +396,7 @@ template<bool Const>
 class Array<T, Alloc>::Iterator {
 public:
     using difference_type   = std::ptrdiff_t;
-    using value_type        = std::conditional_t<Const, const T, T>;
+    using value_type        = T;
     using reference         = std::conditional_t<Const, const T&, T&>;
     using pointer           = std::conditional_t<Const, const T*, T*>;
     using iterator_category = std::random_access_iterator_tag;
-- 
2.43.0


From 11ad958405f9d120b224d701deaa708dbe7b07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 52/52] fix: offer back() only where the end is an iterator

---
 include/xme/container/icontainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/icontainer.hpp b/include/xme/container/icontainer.hpp
index 29d1ad0..33abbf9 100644
--- a/include/xme/container/icontainer.hpp
+++ b/include/xme/container/icontainer.hpp
@@ -91,14 +91,14 @@ public:
 
     [[nodiscard]]
     constexpr auto back() noexcept -> decltype(auto)
-        requires(::ranges::bidirectional_range<D>)
+        requires(::ranges::bidirectional_range<D> && ::ranges::common_range<D>)
     {
         return *::ranges::prev(::ranges::end(derived()));
     }
 
     [[nodiscard]]
     constexpr auto back() const noexcept -> decltype(auto)
-        requires(::ranges::bidirectional_range<const D>)
+        requires(::ranges::bidirectional_range<const D> && ::ranges::common_range<const D>)
     {
         return *::ranges::prev(::ranges::end(derived()));
     }
-- 
2.43.0

