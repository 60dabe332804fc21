From a6663d699eda602b2b4f6230fda7c2f58bc23591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 01/45] fix: Arena::Reset and SpaceRemains dereference null
 before the first block

---
 arena/arena.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..4d1c382 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -401,8 +401,11 @@ class Arena
         }
         // reset all internal status.
         uint64_t reset_size = _space_allocated;
-        _space_allocated = _last_block->size();
-        _last_block->Reset();
+        // nothing to keep if no block was ever allocated
+        if (_last_block != nullptr) [[likely]] {
+            _space_allocated = _last_block->size();
+            _last_block->Reset();
+        }
         return reset_size;
     }
 
@@ -418,7 +421,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block == nullptr ? 0 : _last_block->remain();
     }
 
     /*
@@ -648,7 +651,10 @@ class Arena
             _options.block_dealloc(curr);
             curr = prev;
         }
-        Assert(curr != nullptr, "curr should not be nullptr");
+        // the arena has no block before its first allocation
+        if (curr == nullptr) [[unlikely]] {
+            return 0;
+        }
         // add the curr blk remain to result
         remain_size += curr->remain();
         // reset the last_block_ to the first block
-- 
2.43.0


From 2ff4c8207d299050105d944a555bac43c4514108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 02/45] fix: moving an Arena left its memory resource and
 destruction hook at the source

---
 arena/arena.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 4d1c382..acfae0d 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -159,7 +159,14 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the resource follows the blocks to their new owner
+        if (_resource != nullptr) [[likely]] {
+            _resource->set_arena(this);
+        }
+        // the moved-from arena owns nothing: its destruction is not an event to be reported
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -325,6 +332,7 @@ class Arena
             Assert(arena != nullptr, "memory_resource should make sure arena is not nullptr");
         };  // NOLINT
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
+        void set_arena(Arena* arena) noexcept { _arena = arena; }
 
        protected:
         auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-- 
2.43.0


From 28e1a901440c44900e1fad1dc807061145d986ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 03/45] fix: a block made for an over-aligned allocation had no
 room for its padding

---
 arena/arena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..b603868 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // leave room for the padding an over-aligned request may need in the new block
+        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From 227394069642cf08d4c057e4b576406f56427a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 04/45] fix: Arena::Create and CreateArray ignored the
 alignment of the type

---
 arena/arena.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index acfae0d..4c19f44 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -439,7 +439,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), object_alignment<T>());
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -471,7 +471,7 @@ class Arena
             _options.logger_func(output_message);
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, object_alignment<T>());
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
@@ -602,6 +602,14 @@ class Arena
         return AlignUpTo<kByteSize>(n);
     }
 
+    /*
+     * the alignment of an object of type T in the arena, at least kByteSize
+     */
+    template <typename T>
+    [[nodiscard, gnu::always_inline]] static constexpr auto object_alignment() noexcept -> uint64_t {
+        return alignof(T) > kByteSize ? alignof(T) : kByteSize;
+    }
+
     template <typename T>
     [[nodiscard, gnu::always_inline]] inline auto RegisterDestructor(T* ptr) noexcept -> bool {
         return RegisterDestructorInternal(ptr, typename ArenaHelper<T>::is_destructor_skippable::type());
-- 
2.43.0


From c30e9e106edd24e62e09f917cb5dc7d9e4145aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 05/45] fix: arena requests near the word limit wrapped around
 instead of being refused

---
 arena/arena.cc  | 9 ++++++++-
 arena/arena.hpp | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index b603868..c8e59b4 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -65,7 +65,10 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        _options.logger_func(output_message);
+        if (_options.logger_func != nullptr) {
+            _options.logger_func(output_message);
+        }
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -137,6 +140,10 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // rounding and padding must not wrap around
+    if (bytes > std::numeric_limits<uint64_t>::max() - alignment) [[unlikely]] {
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // leave room for the padding an over-aligned request may need in the new block
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 4c19f44..4853ca5 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -297,7 +297,9 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            // compare without adding the size, it may be close to the max of uint64_t
+            const uint64_t rest = remain();
+            return alignment_waste <= rest && size <= rest - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -468,7 +470,10 @@ class Arena
               "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
-            _options.logger_func(output_message);
+            if (_options.logger_func != nullptr) {
+                _options.logger_func(output_message);
+            }
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size, object_alignment<T>());
-- 
2.43.0


From fe854a96b415ae818dc62da9ebebc8eec28e05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 06/45] fix: Arena::Create leaked the object when its cleanup
 could not be registered

---
 arena/arena.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 4853ca5..8177917 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -446,6 +446,8 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // nobody will ever see the object, nor destroy it later
+                result->~T();
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From afd0611458b7cbf34bd6fcfd6906e5b042672f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 07/45] fix: the arena's memory_resource returned nullptr
 instead of throwing bad_alloc

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 8177917..cc9ed9f 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -337,8 +337,13 @@ class Arena
         void set_arena(Arena* arena) noexcept { _arena = arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            char* ptr = _arena->allocateAligned(bytes, std::max(kByteSize, alignment));
+            // a memory_resource reports failure by throwing, its callers never test for nullptr
+            if (ptr == nullptr) [[unlikely]] {
+                throw std::bad_alloc();
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From 3f6ec88c6cdd53fef1d9274061d7caedda88eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 08/45] fix: assigning an empty range or a count of zero left
 destroyed elements in the vector

---
 container/stdb_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..4369c00 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -605,7 +605,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -625,8 +627,8 @@ class stdb_vector : public core<T>
             this->destroy();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
-                this->_finish = this->_start + count;
             }
+            this->_finish = this->_start + count;
         }
     }
 
-- 
2.43.0


From e726b0c8543ab127cf381613eb563fe7cd5663b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 09/45] fix: get_writebuffer ignored the elements already
 present when growing

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 4369c00..350c9f5 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -909,7 +909,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From 53847a09c44b780b7306761a305f20dbf4c8e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 10/45] fix: an empty vector of very large elements could not
 grow

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 350c9f5..446c714 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1389,7 +1389,7 @@ class stdb_vector : public core<T>
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
         // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
+        if (cap > 0 and cap >= 4096 * 32 / sizeof(T)) [[likely]] {
             return cap * 2;
         }
         return core<T>::kFastVectorInitCapacity;
-- 
2.43.0


From 0fdcff1306d502e7374edfe70d5b22ff16526d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 11/45] fix: ranges that are not contiguous or of another value
 type were copied as raw bytes

---
 container/stdb_vector.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 446c714..6861712 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -169,10 +169,10 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
-        if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
-            std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
-        }
+    // only contiguous elements of the very same type can be copied as bytes.
+    if constexpr (std::is_trivially_copyable_v<T> and std::contiguous_iterator<Iterator> and
+                  std::is_same_v<std::iter_value_t<Iterator>, T>) {
+        std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first, ++dst) {
             new (dst) T(*first);
@@ -558,7 +558,7 @@ class stdb_vector : public core<T>
 
     template <std::forward_iterator InputIt>
     constexpr stdb_vector(InputIt first, InputIt last) : core<T>() {
-        int64_t size = last - first;
+        int64_t size = std::distance(first, last);
         // if size == 0, then do nothing.and just for caller convenience.
         Assert(size >= 0, "stdb_vector should be constructed with non-negative size");
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
@@ -1283,9 +1283,9 @@ class stdb_vector : public core<T>
     }
 
     template <Safety safety = Safety::Safe, class InputIt>
-        requires std::input_iterator<InputIt>
+        requires std::forward_iterator<InputIt>
     constexpr auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator {
-        int64_t count = last - first;
+        int64_t count = std::distance(first, last);
         if (count == 0) [[unlikely]] {
             return iterator((T*)get_ptr_from_iter(pos));  // NOLINT
         }
-- 
2.43.0


From 37b90e1df22b612d857222a158113c62430bff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 12/45] fix: elements of a type marked Relocatable were copied
 bytewise and assigned onto raw memory

---
 container/stdb_vector.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6861712..6f78eea 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -126,7 +126,8 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    // (relocatable is not enough: the source stays alive after a copy)
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -141,7 +142,7 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -153,7 +154,7 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_copy_constructible_v<T>);
@@ -491,9 +492,7 @@ class core
         T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove((void*)dst, (const void*)src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1025,13 +1024,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (const void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
@@ -1095,13 +1095,14 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (const void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
                     ++erased;
+                    destroy_ptr(src);
                 }
                 ++src;
             }
-- 
2.43.0


From f3113e093d8219cd365589a925979349a9df1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 13/45] fix: elements were moved to new storage without ending
 the lifetime of the old ones

---
 container/stdb_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6f78eea..4597561 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -216,6 +216,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
         return dst;
     } else {
@@ -244,6 +245,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            src->~T();
         }
 
     } else {
@@ -497,8 +499,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                src_end->~T();
             }
         } else {
             // backward copy
@@ -1045,6 +1048,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
@@ -1116,6 +1120,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
-- 
2.43.0


From 00f8b50624bc1acb28af385c3eef8c46effb9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 14/45] fix: insert, emplace, resize and assign lost a value
 that is an element of the vector

---
 container/stdb_vector.hpp | 44 +++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 4597561..1e0e85e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -38,8 +38,10 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <functional>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <new>
 #include <span>
 #include <stdexcept>
@@ -516,6 +518,20 @@ class core
     [[gnu::always_inline]] void construct_at(T* __restrict__ ptr, Args&&... args) {
         new ((void*)ptr) T(std::forward<Args>(args)...);  // NOLINT
     }
+
+    [[gnu::always_inline]] void construct_from_temporary(T* __restrict__ ptr, T& value) {
+        if constexpr (std::is_move_constructible_v<T>) {
+            new ((void*)ptr) T(std::move(value));  // NOLINT
+        } else {
+            new ((void*)ptr) T(value);  // NOLINT
+        }
+    }
+
+    // whether value is one of the elements.
+    [[nodiscard, gnu::always_inline]] auto holds(const T& value) const noexcept -> bool {
+        auto* ptr = std::addressof(value);
+        return not std::less<const T*>{}(ptr, _start) and std::less<const T*>{}(ptr, _finish);
+    }
 };
 
 /*
@@ -596,6 +612,10 @@ class stdb_vector : public core<T>
     ~stdb_vector() = default;
 
     constexpr void assign(std::size_t count, const T& value) {
+        if (this->holds(value)) [[unlikely]] {
+            const T copied(value);
+            return assign(count, copied);
+        }
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
@@ -1187,6 +1207,10 @@ class stdb_vector : public core<T>
     }
 
     constexpr void resize(size_type count, const_reference value) {
+        if (this->holds(value)) [[unlikely]] {
+            const T copied(value);
+            return resize(count, copied);
+        }
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
             if (count > this->capacity()) {
@@ -1209,6 +1233,10 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
+        if (this->holds(value)) [[unlikely]] {
+            const T copied(value);
+            return insert<safety>(pos, copied);
+        }
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
@@ -1266,6 +1294,10 @@ class stdb_vector : public core<T>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
         Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
+        if (this->holds(value)) [[unlikely]] {
+            const T copied(value);
+            return insert<safety>(pos, count, copied);
+        }
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
@@ -1329,6 +1361,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
         T* pos_ptr = get_ptr_from_iter(pos);
+        // the arguments may refer to an element, so they are used before anything moves.
+        T value(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_offset = pos_ptr - this->_start;
@@ -1339,7 +1373,7 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            this->construct_from_temporary(this->_finish++, value);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1347,13 +1381,15 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        this->construct_from_temporary(pos_ptr, value);
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        // the arguments may refer to an element, so they are used before anything moves.
+        T value(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1363,7 +1399,7 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            this->construct_from_temporary(this->_finish++, value);
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1371,7 +1407,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        this->construct_from_temporary(pos_ptr, value);
         ++this->_finish;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From f2fa1a293ab8846ad3e67c02c28c6ab18fdbb639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 15/45] fix: a failed allocation lost, leaked or double freed
 the elements of a vector

---
 container/stdb_vector.hpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1e0e85e..a1aff70 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -272,7 +272,11 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        if (ptr == nullptr) [[unlikely]] {
+            throw std::bad_alloc();
+        }
+        return ptr;
     }
     Assert(new_size > 0, "new_size should be larger than zero");
     auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
@@ -308,8 +312,10 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
+        // a failure must not touch the storage owned so far.
+        if (auto* buf = static_cast<T*>(std::malloc(cap * sizeof(T))); buf != nullptr) [[likely]] {
+            _start = buf;
+            _edge = buf + cap;
         } else {
             throw std::bad_alloc();
         }
@@ -352,14 +358,9 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
-            // copy data
-            _finish = copy_range(_start, other._start, other._finish);
+            // copy first: a failure leaves the old data alone
+            core copied(other);
+            swap(copied);
         } else {
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
@@ -455,9 +456,13 @@ class core
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
+        // a failure must leave the old data alone.
+        auto* old_start = _start;
+        auto* old_finish = _finish;
         allocate(new_cap);
-        return _start;
+        destroy_range(old_start, old_finish);
+        std::free(old_start);
+        return _finish = _start;
     }
 
     [[gnu::always_inline]] void destroy() {
-- 
2.43.0


From c113a0e2a1314d115d35b87270316e979e7931dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 16/45] fix: vector requests whose byte count wraps around were
 granted a small buffer

---
 container/stdb_vector.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a1aff70..029ad4e 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -310,9 +310,17 @@ class core
     T* _edge;    // buffer end   // NOLINT
 
    public:
+    // more elements than a ptrdiff_t of bytes can never be obtained (and the byte count would wrap).
+    [[gnu::always_inline]] static void check_capacity(size_type cap) {
+        if (cap > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+            throw std::bad_alloc();
+        }
+    }
+
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
         // a failure must not touch the storage owned so far.
+        check_capacity(cap);
         if (auto* buf = static_cast<T*>(std::malloc(cap * sizeof(T))); buf != nullptr) [[likely]] {
             _start = buf;
             _edge = buf + cap;
@@ -429,6 +437,7 @@ class core
     [[gnu::always_inline]] void realloc_with_old_data(size_type new_cap) {
         // no check new_cap because it will be checked in caller.
         auto old_size = size();
+        check_capacity(new_cap);
         Assert(new_cap >= old_size, "new_cap should be larger than old_size, or it will cause data loss");
         _finish = realloc_with_move(_start, old_size, new_cap);
         _edge = _start + new_cap;
@@ -920,6 +929,7 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
+            this->check_capacity(to_fill);
             if (to_fill + this->size() > this->capacity()) [[unlikely]] {
                 this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
             }
@@ -935,7 +945,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
+            if (buf_size > static_cast<size_type>(this->_edge - this->_finish)) {
+                this->check_capacity(buf_size);
                 this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
@@ -1306,6 +1317,7 @@ class stdb_vector : public core<T>
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
+            this->check_capacity(count);
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
                 reserve(compute_new_capacity(size + count));
-- 
2.43.0


From bed559b8b00d12b17edcab0255b870fe0ce0c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 17/45] fix: overlapping moves of vector elements were declared
 restrict

---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 029ad4e..f2ffcef 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -232,8 +232,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -488,19 +487,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From f605f902a0733b9692d7bb8fe81b83ac1443b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 18/45] fix: contains ignored the length of a string_view
 needle

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..03a4ce7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1607,7 +1607,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From 919840a3f204f15d0fd8eafe619f9e848a61e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 19/45] fix: std::to_string cut a string at its first zero
 character

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 03a4ce7..64df73f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2770,8 +2770,8 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 
 namespace std {
 
-[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) -> std::string {
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From 80c340dddd03e82fcfc8f95e71d773d49b12c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 20/45] fix: inserting a piece of a string into itself read
 moved or released text

---
 string/string.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index 64df73f..eb9a0fa 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2048,6 +2048,14 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     Assert(n >= 0, "insert input range is invalid");
 
     auto oldSize = size();
+    if constexpr (std::is_same<FwdIterator, iterator>::value || std::is_same<FwdIterator, const_iterator>::value) {
+        std::less_equal<const value_type*> le{};
+        if (n > 0 && le(cbegin(), s1) && !le(cend(), s1)) [[unlikely]] {
+            // the source is a part of this string, and would be moved while it is being inserted.
+            const basic_string temp(s1, size_type(n), get_allocator());
+            return insert(i, temp.cbegin(), temp.cend());
+        }
+    }
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
     string_detail::podMove(b + pos, b + oldSize, b + pos + n);
-- 
2.43.0


From 72976b811369b7fb5ed5af985d0cda7ff946fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 21/45] fix: replacing with a piece of the string itself left
 the string's allocator

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index eb9a0fa..ab6f742 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2125,7 +2125,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From 59b4f3d544db53af6c3d34966dc564a33a37975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 22/45] fix: swapping arena strings exchanged the texts but not
 the allocators they belong to

---
 string/arena_string.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..14bf63c 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -32,6 +32,7 @@
 #pragma once
 
 #include <iostream>
+#include <memory>
 #include <optional>
 #include <stdexcept>
 #include <thread>
@@ -187,6 +188,12 @@ class arena_string_core
         auto const t = ml_;  // NOLINT
         ml_ = rhs.ml_;       // NOLINT
         rhs.ml_ = t;         // NOLINT
+        // the text belongs to its resource, so both change hands. The allocator type is not assignable.
+        auto const alloc = allocator_;
+        std::destroy_at(&allocator_);
+        std::construct_at(&allocator_, rhs.allocator_);
+        std::destroy_at(&rhs.allocator_);
+        std::construct_at(&rhs.allocator_, alloc);
 #if not defined(NDEBUG) && defined(CROSS_THREAD_CHECKING)
         std::swap(cpu_, rhs.cpu_);
 #endif
-- 
2.43.0


From b2f28445e9e5eca171af843e26f1e424404cccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 23/45] fix: reading a word kept the stream's width unless it
 ended at the end of input

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index ab6f742..de8d00e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2527,7 +2527,6 @@ inline auto operator>>(
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
             if (got == T::eof()) {
                 err |= _istream_type::eofbit;
-                is.width(0);
                 break;
             }
             if (isspace(got)) {
@@ -2536,6 +2535,7 @@ inline auto operator>>(
             str.push_back(got);
             got = is.rdbuf()->snextc();
         }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From 040f6454a4da195b47a69ef8ee9fb120762a1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 24/45] fix: getline misread a failed stream and threw for long
 lines when the stream reports failures

---
 string/string.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index de8d00e..b47fa93 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1919,30 +1919,30 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
-    clear();
-    size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
+    auto err = istream_type::goodbit;
+    typename istream_type::sentry sentry(is, true);
+    if (sentry) {
+        clear();
+        bool extracted = false;
+        auto const end = traits_type::to_int_type(delim);
+        for (auto got = is.rdbuf()->sgetc();; got = is.rdbuf()->snextc()) {
+            if (traits_type::eq_int_type(got, traits_type::eof())) {
+                err |= istream_type::eofbit;
+                break;
             }
-            resize(size);
-            break;
+            extracted = true;
+            if (traits_type::eq_int_type(got, end)) {
+                is.rdbuf()->sbumpc();
+                break;
+            }
+            push_back(traits_type::to_char_type(got));
         }
-
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
-        is.clear();
+        if (!extracted) {
+            err |= istream_type::failbit;
+        }
+    }
+    if (err != istream_type::goodbit) {
+        is.setstate(err);
     }
     return is;
 }
-- 
2.43.0


From 24c9fbe4237dfd7b038471c90c68db466fa74d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 25/45] fix: assigning a character to a shared arena string
 used the default allocator

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index b47fa93..f03171e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1798,7 +1798,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
-- 
2.43.0


From 8a85478beb8a9098a451c708c1647ef2b4b1a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 26/45] fix: a failed reallocation released text the string
 still owned

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index f03171e..bbec677 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // ptr still belongs to its owner
         throw std::bad_alloc();
     }
     return new_ptr;
-- 
2.43.0


From 624f0fe5ff49d04c24ab11643f29ff8fb040b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 27/45] fix: lengths that wrap around were accepted when a
 string grows

---
 string/arena_string.hpp | 8 ++++++--
 string/string.hpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 14bf63c..d562f97 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -799,7 +799,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;  // NOLINT
@@ -807,7 +809,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz);
     } else {
         oldSz = ml_.size_;  // NOLINT
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
diff --git a/string/string.hpp b/string/string.hpp
index bbec677..c688a6a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -955,7 +955,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (!disableSSO && newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;
@@ -963,7 +965,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz, disableSSO);
     } else {
         oldSz = ml_.size_;
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
-- 
2.43.0


From e1f4b4d22e93f6664db806d3b7be5fc7ff6b24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 28/45] fix: appending a string_view to an arena string made a
 temporary with the default allocator

---
 string/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index c688a6a..cead833 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1315,7 +1315,9 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& {
+        return append(str.data(), str.size());
+    }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From e4aaf24ba8d67e5273a85ee698670e1b4bbfbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 29/45] fix: operations that copy a shared or medium text were
 declared noexcept

---
 string/string.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index cead833..da10f33 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1223,25 +1223,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1255,13 +1255,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1300,7 +1300,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
-- 
2.43.0


From 3348ceb8507c36433332b945e3b726eb0587b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 30/45] fix: assign and replace changed the text before they
 asked for memory

---
 string/string.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index da10f33..07f742b 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1910,6 +1910,11 @@ auto basic_string<E, T, A, S>::assign(const value_type* s, size_type n) -> basic
     } else {
         // If n is larger than size(), s cannot alias this string's
         // storage.
+        if (n > capacity()) {
+            // the text must stay as it is if there is no memory for the new one.
+            basic_string(s, n, get_allocator()).swap(*this);
+            return *this;
+        }
         resize(0);
         // Do not use exponential growth here: assign() should be tight,
         // to mirror the behavior of the equivalent constructor.
@@ -2104,8 +2109,10 @@ inline auto basic_string<E, T, A, S>::replaceImplDiscr(iterator i1, iterator i2,
         std::fill(i1, i1 + n2, c);
         erase(i1 + n2, i2);
     } else {
-        std::fill(i1, i2, c);
+        // insert may fail, so it comes before any change
+        auto const pos = size_t(i1 - begin());
         insert(i2, n2 - n1, c);
+        std::fill(begin() + pos, begin() + pos + n1, c);
     }
     Assert(isSane(), "replaceImplDiscr() failed to make the string is Sane");
     return *this;
@@ -2162,8 +2169,10 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
         erase(i1 + n2, i2);
     } else {
         // grows
-        s1 = string_detail::copy_n(s1, n1, i1).first;
-        insert(i2, s1, s2);
+        // insert may fail, so it comes before any change
+        auto const pos = size_t(i1 - begin());
+        insert(i2, std::next(s1, n1), s2);
+        string_detail::copy_n(s1, n1, begin() + pos);
     }
     Assert(isSane(), "after replaceImpl, the string was not Sane");
 }
-- 
2.43.0


From 31869f91369f6103141eccd9c49fbc9e720532ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 31/45] fix: the reference count of a large arena string was
 placed in memory aligned for characters only

---
 string/arena_string.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index d562f97..5c3749c 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -44,7 +44,8 @@ namespace stdb::memory {
 
 template <class Char>
 inline auto arena_smartRealloc(pmr::polymorphic_allocator<Char>& allocator, void* ptr, const size_t currentSize,
-                               [[maybe_unused]] const size_t currentCapacity, const size_t newCapacity) -> void* {
+                               [[maybe_unused]] const size_t currentCapacity, const size_t newCapacity,
+                               const size_t alignment = alignof(Char)) -> void* {
     Assert(ptr, "arena_smartRealloc: origin source ptr is nullptr");
     Assert(currentSize <= currentCapacity && currentCapacity < newCapacity, "arena_smartRealloc: invalid capacity");
 
@@ -56,11 +57,11 @@ inline auto arena_smartRealloc(pmr::polymorphic_allocator<Char>& allocator, void
 #endif
 
     // arena do not support realloc, just allocate, and memcpy.
-    if (auto* const result = allocator.allocate(newCapacity); result != nullptr) [[likely]] {
+    if (auto* const result = allocator.resource()->allocate(newCapacity, alignment); result != nullptr) [[likely]] {
         std::memcpy(result, ptr, currentSize);
         if (allocator == pmr::polymorphic_allocator<Char>()) {
             // do dealloc while use std::pmr::polymorphism_allocator<Char>();
-            allocator.deallocate(static_cast<char*>(ptr), currentCapacity);
+            allocator.resource()->deallocate(ptr, currentCapacity, alignment);
         }
         return result;
     }
@@ -321,7 +322,7 @@ class arena_string_core
                 // free(ml_.data_);  // NOLINT
                 //  calc the medium size, and deallocate it.
                 //  detail: reverse the allocation calculating
-                allocator_.deallocate(ml_.data_, (capacity() + 1) * sizeof(Char));  // NOLINT
+                allocator_.resource()->deallocate(ml_.data_, (capacity() + 1) * sizeof(Char), alignof(Char));  // NOLINT
             } else {
                 // detail: reverse the allocation calculating
                 RefCounted::decrementRefs(ml_.data_,
@@ -369,7 +370,7 @@ class arena_string_core
                    "arena—string_core decrementRefs failed, oldcnt should greater than 0, or data corruption occurs");
             if (oldcnt == 1) {
                 //                const auto size_to_dealloc = calc_large_by_size(size, getDataOffset());
-                allocator.deallocate(reinterpret_cast<Char*>(dis), size);
+                allocator.resource()->deallocate(dis, size, alignof(RefCounted));
                 // free(dis);
                 // allocator.deallocate(dis);
             }
@@ -392,7 +393,9 @@ if (!checked_muladd(&capacityBytes, capacityBytes, sizeof(Char), getDataOffset()
 
             ::size_t capacityBytes = calc_large_by_size(*size, getDataOffset());
             //            const size_t allocSize = goodMallocSize(capacityBytes);
-            if (auto result = static_cast<RefCounted*>(static_cast<void*>(allocator.allocate(capacityBytes)));
+            // the block starts with the reference count, so it needs more than the alignment of Char.
+            if (auto result =
+                  static_cast<RefCounted*>(allocator.resource()->allocate(capacityBytes, alignof(RefCounted)));
                 result != nullptr) {
                 // result->refCount_.store(1, std::memory_order_release);
                 result->refCount_ = 1;
@@ -434,7 +437,8 @@ if (!checked_muladd(&capacityBytes, capacityBytes, sizeof(Char), getDataOffset()
             //            sizeof(Char),
             auto result = static_cast<RefCounted*>(
               arena_smartRealloc(allocator, dis, getDataOffset() + (currentSize + 1) * sizeof(Char),
-                                 getDataOffset() + (currentCapacity + 1) * sizeof(Char), capacityBytes));
+                                 getDataOffset() + (currentCapacity + 1) * sizeof(Char), capacityBytes,
+                                 alignof(RefCounted)));
             // assert(dis->refCount_.load(std::memory_order_acquire) == 1);
             Assert(result->refCount_ == 1, "reallocate result should make sure refCount_ == 1");
             *newCapacity = (capacityBytes - getDataOffset()) / sizeof(Char) - 1;
@@ -507,7 +511,7 @@ if (!checked_muladd(&capacityBytes, capacityBytes, sizeof(Char), getDataOffset()
         }
 #endif
 
-        if (auto* rst = allocator_.allocate(size); rst != nullptr) [[likely]] {
+        if (auto* rst = allocator_.resource()->allocate(size, alignof(Char)); rst != nullptr) [[likely]] {
             return rst;
         }
         throw std::bad_alloc();
-- 
2.43.0


From 4f5870db41aa7c3b154b12dc464abf05ffba9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 32/45] fix: a format error while formatting a string ended the
 program

---
 string/arena_string.hpp | 2 +-
 string/string.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 5c3749c..f4abe23 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -883,7 +883,7 @@ template <>
 struct formatter<stdb::memory::arena_string> : formatter<string_view>
 {
     template <typename Context>
-    auto format(const stdb::memory::arena_string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::arena_string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
diff --git a/string/string.hpp b/string/string.hpp
index 07f742b..59184a7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2784,7 +2784,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
     using formatter<fmt::string_view>::parse;
 
     template <typename Context>
-    auto format(const stdb::memory::string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
-- 
2.43.0


From 536550aa05d3c11522e1879c2054eaf2670f439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 33/45] fix: an empty text given to a number or bool option was
 read as an uninitialised value

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..d5d4b91 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -275,7 +275,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};  // stays untouched if there is nothing to extract
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 3896e586a74ad7a08650fde4112390a6c6f4df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 34/45] fix: reading a value as a type it does not have ended
 the program

---
 optparse/optparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..871f9de 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -108,7 +108,7 @@ class ValueStore
     }
 
     template <typename T>
-    [[nodiscard]] auto get(string key) const noexcept -> std::optional<T> {
+    [[nodiscard]] auto get(string key) const -> std::optional<T> {
         if (auto vit = _values.find(key); vit != _values.end()) {
             return std::get<T>(vit->second);
         }
-- 
2.43.0


From fcff0d5059c192fb1896ddeafe059a053ab55174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 35/45] fix: a parser made with a prefix and a conflict handler
 neither checked the prefix nor knew its long prefix

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index d5d4b91..7fdfa4f 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -98,8 +98,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From a3416ebefe39b7df022cf3802948bed137acad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 36/45] fix: the options of a copied or moved parser referred
 to the parser they came from

---
 optparse/optparse.cc  | 8 +++++++-
 optparse/optparse.hpp | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 7fdfa4f..3baa821 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,11 +72,17 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
+// a parser may be copied or moved together with its options, so an option must not refer to the parser.
+Option::Option(const OptionParser& opp) : _long_prefix(opp.long_prefix()) {}
+
+Option::Option(const OptionParser& opp, vector<string> names)
+    : _long_prefix(opp.long_prefix()), _names(std::move(names)) {}
+
 auto Option::validate() -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            if (nnn.size() > 2 and nnn.starts_with(_long_prefix)) {
                 _dest = nnn.substr(2);
                 break;
             }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index 871f9de..9fa6fc1 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -162,7 +162,7 @@ enum Type : uint8_t
 class Option
 {
    private:
-    const OptionParser& _parser;
+    string _long_prefix;
     vector<string> _names;
     Action _action = Action::Null;
     Type _type = Type::String;
@@ -173,7 +173,7 @@ class Option
     string _env = "";
 
    public:
-    explicit Option(const OptionParser& opp) : _parser(opp) {}
+    explicit Option(const OptionParser& opp);
     ~Option() = default;
 
     Option(const Option&) = default;
@@ -181,7 +181,7 @@ class Option
     auto operator=(const Option&) -> Option& = delete;
     auto operator=(Option&&) noexcept -> Option& = delete;
 
-    Option(const OptionParser& opp, vector<string> names) : _parser(opp), _names(std::move(names)) {}
+    Option(const OptionParser& opp, vector<string> names);
 
     auto validate() -> bool;
 
@@ -328,6 +328,9 @@ class OptionParser
     auto operator=(OptionParser&&) noexcept -> OptionParser& = delete;
 
     [[nodiscard]] auto extract_option_type(const string& opt) const -> OptionType;
+
+    [[nodiscard]] inline auto long_prefix() const -> const string& { return _long_prefix; }
+
     inline auto program(string prog) -> OptionParser& {
         _program = std::move(prog);
         return *this;
-- 
2.43.0


From 8163bd70bb63c43e20d81521fc5202e2296e928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 37/45] fix: parsing discarded the configured version

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 3baa821..bd59e08 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -232,7 +232,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
     }
     add_usage_option({});
     add_help_option({});
-    add_version_option({});
+    add_version_option(_version);
     ArgList args_list{std::move(args)};
     ValueStore store;
     auto argv_span = std::span(argv, static_cast<uint32_t>(_argc));
-- 
2.43.0


From 37230bdc7e0f7cd58a12bb11bb4e9b513c868ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 38/45] fix: an option refused for its names stayed registered,
 and an option without names was accepted

---
 optparse/optparse.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index bd59e08..4c73225 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -131,24 +131,33 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
+    const auto& names = option.names();
+    if (names.empty()) {
+        throw std::logic_error("an option needs at least one name");
+    }
+    // check all names first, a refused option must not leave anything behind.
+    for (auto it = names.begin(); it != names.end(); ++it) {
+        auto type = extract_option_type(*it);
+        if (type == OptionType::InvalidOpt) {
+            throw std::logic_error(fmt::format("Invalid option name: {}", *it));
+        }
+        if (_conflict_handler == ConflictHandler::Error) {
+            const bool is_short = type == OptionType::ShortOpt;
+            const auto& registered = is_short ? _short_option_map : _long_option_map;
+            if (registered.contains(*it) or std::find(names.begin(), it, *it) != it) {
+                throw std::logic_error(
+                  fmt::format("{} option {} is already registered", is_short ? "Short" : "Long", *it));
+            }
+        }
+    }
     _options.emplace_back(std::move(option));
     // register all names for the option.
     for (const auto& name : _options.back().names()) {
-        auto type = extract_option_type(name);
-        if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
-                throw std::logic_error(fmt::format("Short option {} is already registered", name));
-            }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
+        // if the ConflictHandler is Replace, we will replace the old option with the new one.
+        if (extract_option_type(name) == OptionType::ShortOpt) {
             _short_option_map[name] = _options.size() - 1;
-        } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
-                throw std::logic_error(fmt::format("Long option {} is already registered", name));
-            }
-            // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
         } else {
-            throw std::logic_error(fmt::format("Invalid option name: {}", name));
+            _long_option_map[name] = _options.size() - 1;
         }
     }
 
-- 
2.43.0


From 931942d231bb41f93c8f5c78b1fd1afec70b983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 39/45] fix: counted options were taken for unset, so defaults
 and environment were counted on top

---
 optparse/optparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index 9fa6fc1..000d177 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From c52684d3be8dbfd055a0e9ab4ce71d3df511e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 40/45] fix: a format error while formatting an option type
 ended the program

---
 optparse/optparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index 000d177..d0a9b41 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -400,7 +400,7 @@ template <>
 struct formatter<stdb::optparse::Type> : formatter<string_view>
 {
     template <typename FormatContext>
-    auto format(stdb::optparse::Type opt_type, FormatContext& ctx) const noexcept {
+    auto format(stdb::optparse::Type opt_type, FormatContext& ctx) const {
         std::string str;
         switch (opt_type) {
             case stdb::optparse::Bool:
-- 
2.43.0


From 3703d1e22b770c11feabf27d1cda655eadeaa01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 41/45] fix: usage and version texts kept what they said when
 first asked for

---
 optparse/optparse.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 4c73225..d995364 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -570,28 +570,29 @@ auto to_upper(string& input) -> void {
 }
 
 auto OptionParser::format_usage() -> string {
-    if (_usage.empty()) {
-        // enrich the _usage message.
-        _usage = fmt::format("usage: {}", _program);
-        for (auto& opt : _options) {
-            if (opt.type() == Type::Bool) {
-                auto upper_dest = opt.dest();
-                to_upper(upper_dest);
-                auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
-                _usage += std::string_view{opt_msg};
-            } else {
-                auto opt_msg = fmt::format(" [{}]", opt.names().front());
-                _usage += std::string_view{opt_msg};
-            }
+    if (not _usage.empty()) {
+        return _usage;
+    }
+    // describe the options known by now, later ones have to show up too.
+    auto usage = fmt::format("usage: {}", _program);
+    for (auto& opt : _options) {
+        if (opt.type() == Type::Bool) {
+            auto upper_dest = opt.dest();
+            to_upper(upper_dest);
+            auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
+            usage += std::string_view{opt_msg};
+        } else {
+            auto opt_msg = fmt::format(" [{}]", opt.names().front());
+            usage += std::string_view{opt_msg};
         }
-        _usage += "\n";
     }
-    return _usage;
+    usage += "\n";
+    return usage;
 }
 
 auto OptionParser::format_verison() -> string {
     if (_version.empty()) {
-        _version = fmt::format("{} : {}", _program, "0.0.0");
+        return fmt::format("{} : {}", _program, "0.0.0");
     }
     return _version;
 }
-- 
2.43.0


From 9eee5f3625ab26d84cd317d7446dd3089cf4722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 42/45] fix: asking a parser without options for its help read
 past an empty list

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index d995364..28843d4 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -625,7 +625,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = max_line == line_and_helps.end() ? 0 : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From 860878a1bb928ff64bfbc45e8b7235a9ef2d5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 43/45] fix: an option named by the bare long prefix was never
 found

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 28843d4..8027f94 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -431,11 +431,12 @@ auto OptionParser::has_value_to_process(string current_arg, const ArgList& args)
 }
 
 auto OptionParser::find_opt(string opt_name) -> Option* {
-    if (opt_name.starts_with(_long_prefix)) {
+    auto type = extract_option_type(opt_name);
+    if (type == OptionType::LongOpt) {
         if (auto opt_it = _long_option_map.find(opt_name); opt_it != _long_option_map.end()) [[likely]] {
             return &_options[opt_it->second];
         }
-    } else if (opt_name.starts_with(_prefix)) {
+    } else if (type == OptionType::ShortOpt) {
         if (auto opt_it = _short_option_map.find(opt_name); opt_it != _short_option_map.end()) [[likely]] {
             return &_options[opt_it->second];
         }
-- 
2.43.0


From 4a477c184857d4e252ff1509d37a1c9cfc5fee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 44/45] fix: guard the table of arena locations in the global
 metrics against concurrent reports

---
 arena/metrics.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..cd75f1e 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -41,6 +41,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -103,6 +104,7 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    mutable std::mutex arena_alloc_mutex;  // threads insert into arena_alloc_counter while others use it
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -120,6 +122,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -157,6 +160,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -249,8 +253,11 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
-        for (const auto& [loc, count] : arena_alloc_counter) {
-            global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+        {
+            const std::lock_guard<std::mutex> guard(global_arena_metrics.arena_alloc_mutex);
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+            }
         }
 
         reset();
-- 
2.43.0


From 4b2eeb24743cad15e47f2357829d57dc2ff74557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 45/45] fix: render global metrics that have not counted an
 allocation or a destruction yet

---
 arena/metrics.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index cd75f1e..c7ff171 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -146,17 +146,21 @@ struct GlobalArenaMetrics
           space_wasted, space_resettled);
 
         constexpr uint64_t kPercentMagic = 100UL;
+        // nothing counted yet: every share is 0%
+        auto percent = [](uint64_t count, uint64_t total) -> uint64_t {
+            return total == 0 ? 0 : count * kPercentMagic / total;
+        };
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), percent(count, alloc_count));
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               percent(count, destruct_count));
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0

