From 53095174e5fa159ea16ed0d7414c9c52f163cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:14 +0000
Subject: [PATCH 01/30] fix: allocator-extended move of VariableLengthArray
 between unequal allocators

The constructor took over memory that its own allocator could not release when
the allocators propagate on move, and otherwise leaked the source's storage and
recorded a capacity larger than the block it had allocated.
---
 include/cetl/variable_length_array.hpp | 103 ++++++++++---------------
 1 file changed, 42 insertions(+), 61 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..fb70f0f 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -593,6 +593,36 @@ protected:
         }
     }
 
+    // +----------------------------------------------------------------------+
+    // | MOVE CONSTRUCT IMPLEMENTATION
+    // +----------------------------------------------------------------------+
+    ///
+    /// Move the contents of rhs into this, empty, object without adopting the allocator of rhs.
+    ///
+    constexpr void move_construct_from(VariableLengthArrayBase&& rhs, const size_type rhs_max_size)
+    {
+        if (std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_)
+        {
+            // We can release this memory using our own allocator so we can simply take ownership of it.
+            data_         = rhs.data_;
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            rhs.size_     = 0;
+            rhs.capacity_ = 0;
+            rhs.data_     = nullptr;
+        }
+        else
+        {
+            // The allocators are not equal, so we need to move the data over manually. The rhs keeps its memory.
+            reserve(rhs.size_, rhs_max_size);
+            size_ = fast_forward_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+            if (size_ == rhs.size_)
+            {
+                rhs.resize(0, rhs_max_size);
+            }
+        }
+    }
+
     // +----------------------------------------------------------------------+
     // | Common Implementation
     // +----------------------------------------------------------------------+
@@ -787,61 +817,6 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_(std::move(rhs.data_))
-        , capacity_(rhs.capacity_)
-        , size_(rhs.size_)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_{nullptr}
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        if (alloc_ == rhs.alloc_)
-        {
-            // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        else
-        {
-            // The allocators are not equal, so we need to move the data over
-            // manually.
-            if (rhs.size_ > 0)
-            {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
-            }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
     ~VariableLengthArrayBase() = default;
 
     // +----------------------------------------------------------------------+
@@ -1032,9 +1007,12 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
     {
+        Base::move_construct_from(std::move(rhs), rhs.max_size());
     }
 
     VariableLengthArray(VariableLengthArray&& rhs) noexcept
@@ -1900,11 +1878,14 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
     {
-        rhs.last_byte_bit_fill_ = 0;
+        Base::move_construct_from(std::move(rhs), rhs.max_size());
+        last_byte_bit_fill_     = (size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
+        rhs.last_byte_bit_fill_ = (rhs.size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From d48e93fdb9033ba30fb588878c49946eb19eb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:49 +0000
Subject: [PATCH 02/30] fix: do not leak elements or memory when a
 VariableLengthArray element throws

Constructors, reserve, shrink_to_fit, resize and assignments leaked the new block
and the elements already constructed in it when constructing an element threw.
---
 include/cetl/variable_length_array.hpp | 57 +++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index fb70f0f..6bd0691 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -252,6 +252,39 @@ protected:
         alloc.deallocate(src, src_capacity_count);
     }
 
+    // +----------------------------------------------------------------------+
+    // | exception safety support
+    // +----------------------------------------------------------------------+
+    ///
+    /// Destroys the elements constructed so far unless released. Used to not leak elements where a constructor throws.
+    ///
+    struct ConstructionGuard final
+    {
+        ~ConstructionGuard()
+        {
+            fast_destroy(data, count);
+        }
+        value_type* const data;
+        size_type         count;
+    };
+
+    ///
+    /// Deallocates a block of memory unless released. Used to not leak memory where a constructor throws.
+    ///
+    struct AllocationGuard final
+    {
+        ~AllocationGuard()
+        {
+            if (nullptr != data)
+            {
+                alloc.deallocate(data, count);
+            }
+        }
+        allocator_type& alloc;
+        value_type*     data;
+        const size_type count;
+    };
+
     // +----------------------------------------------------------------------+
     // | COPY ASSIGNMENT
     // +----------------------------------------------------------------------+
@@ -334,13 +367,16 @@ protected:
                                                      std::declval<std::add_lvalue_reference_t<
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard constructed{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
                                                              &dst[static_cast<difference_type>(i)],
                                                              src[static_cast<difference_type>(i)]);
+            constructed.count = i + 1;
         }
+        constructed.count = 0;
         return max_copy_size;
     }
 
@@ -372,11 +408,14 @@ protected:
         typename std::enable_if_t<
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        const size_type   max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructionGuard constructed{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            constructed.count = i + 1;
         }
+        constructed.count = 0;
         return max_copy_size;
     }
 
@@ -667,7 +706,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                AllocationGuard allocated{alloc_, new_data, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                allocated.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -696,10 +737,13 @@ protected:
                 }
 #endif
             }
+            ConstructionGuard constructed{&data_[size_], 0};
             for (std::size_t i = size_; i < new_size; ++i)
             {
                 std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                constructed.count = i + 1 - size_;
             }
+            constructed.count = 0;
         }
         else
         {
@@ -750,7 +794,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                AllocationGuard allocated{alloc_, minimized_data, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                allocated.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -938,7 +984,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<value_type> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve(l.size());
         size_ = Base::fast_copy_construct(data_, capacity_, l.begin(), l.size(), alloc_);
@@ -962,7 +1008,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -990,7 +1036,8 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
+        : VariableLengthArray(rhs.max_size_max_,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(alloc))
     {
         Base::reserve(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
-- 
2.43.0


From f5a78d9106ae9098931299da3e376165429dbe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:33 +0000
Subject: [PATCH 03/30] fix: let exceptions from element assignment leave
 VariableLengthArray

The exception specification evaluated noexcept() of a constant, which is always
true, so a throwing element assignment terminated the program.
---
 include/cetl/variable_length_array.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 6bd0691..78c62bc 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -294,7 +294,7 @@ protected:
     ///
     template <typename InputIt>
     static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+        std::is_nothrow_assignable<value_type&, const InputIt&>::value)
     {
         if (nullptr == dst)
         {
@@ -313,8 +313,7 @@ protected:
         value_type* dst,
         size_type   dst_capacity_count,
         InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+        size_type   src_len_count) noexcept(std::is_nothrow_assignable<value_type&, decltype(*src)>::value)
     {
         if (nullptr == dst || nullptr == src)
         {
-- 
2.43.0


From 8b21bd3a3493ce69a585ddaa6fbd97304d1286d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:36 +0000
Subject: [PATCH 04/30] fix: keep the source's elements when
 VariableLengthArray move assignment runs out of memory

With exceptions disabled the items were destroyed although none of them had been
transferred.
---
 include/cetl/variable_length_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 78c62bc..670d41a 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -626,7 +626,10 @@ protected:
                 move_assign_alloc(rhs.alloc_);
                 reserve(new_size, rhs_max_size);
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                rhs.resize(0, rhs_max_size);
+                if (size_ == new_size)
+                {
+                    rhs.resize(0, rhs_max_size);
+                }  // else we could not get the memory so the rhs keeps its items.
             }
         }
     }
-- 
2.43.0


From 77891f48278f0ed79b6ab481e117a85e8ede3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:31 +0000
Subject: [PATCH 05/30] fix: enforce the maximum size of VariableLengthArray
 after assignments

Assigning an array with a smaller maximum size kept the larger capacity, and
appending or resizing within that capacity ignored the maximum. Moving between
unequal allocators did not take over the maximum size at all.
---
 include/cetl/variable_length_array.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 670d41a..4bd4ca3 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -578,6 +578,7 @@ protected:
         }
         else
         {
+            max_size_max_ = rhs.max_size_max_;
             if (rhs.size_ <= capacity_)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
@@ -729,6 +730,16 @@ protected:
         if (new_size > size_)
         {
             // grow
+            if (new_size > max_size)
+            {
+#if defined(__cpp_exceptions)
+                throw std::length_error("Requested size exceeds maximum size.");
+#else
+                // deviation from the standard: instead of undefined behaviour we clamp the size to the maximum size
+                // when exceptions are disabled.
+                new_size = std::max(max_size, size_);
+#endif
+            }
             if (new_size > capacity_)
             {
                 reserve(new_size, max_size);
@@ -1534,7 +1545,7 @@ private:
     /// return true if there was or now is enough capacity to add one more element.
     constexpr bool ensure_size_plus_one()
     {
-        if (size_ < capacity_)
+        if (size_ < std::min(capacity_, max_size()))
         {
             return true;
         }
-- 
2.43.0


From dd75507805547b12dbe2a07e6a71ea189d387f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:20 +0000
Subject: [PATCH 06/30] fix: allow VariableLengthArray elements as arguments to
 push_back, resize and assign

The argument was used after the array had moved or destroyed the element that it
refers to.
---
 include/cetl/variable_length_array.hpp | 36 ++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 4bd4ca3..5cf745d 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <functional>
 #include <initializer_list>
 #include <limits>
 #include <memory>
@@ -1442,12 +1443,14 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
+        // The value may be an element of this array in which case it moves when the array grows.
+        const size_type value_index = index_of(value);
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(value);
+        push_back_impl((value_index < size_) ? static_cast<const value_type&>(data_[value_index]) : value);
     }
 
     ///
@@ -1522,7 +1525,16 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
-        Base::resize(count, max_size(), value);
+        if (count > capacity_)
+        {
+            // The value may be an element of this array so we can't use it once the elements have been moved.
+            const value_type value_copy(value);
+            Base::resize(count, max_size(), value_copy);
+        }
+        else
+        {
+            Base::resize(count, max_size(), value);
+        }
     }
 
     /// Set count elements to the given value. Grow the array if needed else
@@ -1533,15 +1545,29 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void assign(size_type count, const value_type& value)
     {
-        const size_type size_before = size_;
-        resize(count, value);
+        // The value may be an element of this array so we can't use it once the elements have been changed.
+        const value_type value_copy(value);
+        const size_type  size_before = size_;
+        resize(count, value_copy);
         const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
-        Base::fast_copy_assign(data_, back_fill_count, value);
+        Base::fast_copy_assign(data_, back_fill_count, value_copy);
     }
 
 private:
     // +----------------------------------------------------------------------+
 
+    /// Index of the given object if it is an element of this array, `size_` otherwise.
+    constexpr size_type index_of(const value_type& value) const noexcept
+    {
+        const value_type* const            address = std::addressof(value);
+        const std::less<const value_type*> less_than{};
+        if (less_than(address, data_) || !less_than(address, data_ + size_))
+        {
+            return size_;
+        }
+        return static_cast<size_type>(address - data_);
+    }
+
     /// return true if there was or now is enough capacity to add one more element.
     constexpr bool ensure_size_plus_one()
     {
-- 
2.43.0


From 092a05be5e937b558c6bf60ad5d0129ec83bf641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:41 +0000
Subject: [PATCH 07/30] fix: compare every byte of two boolean
 VariableLengthArrays

---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5cf745d..ac587ff 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2006,7 +2006,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 8d36a3494cfaac2ee241db0ce47a96f760e0110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:41 +0000
Subject: [PATCH 08/30] fix: keep the bit count of boolean VariableLengthArrays
 in step with their contents

A moved-from array, and one that could not be copied for want of memory,
kept the bit fill of its former last byte.
---
 include/cetl/variable_length_array.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ac587ff..9f28505 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1939,10 +1939,11 @@ public:
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
         reserve_bits(rhs.size(), rhs.max_size());
-        size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        size_               = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        last_byte_bit_fill_ = (size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1952,8 +1953,12 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        if (this != &rhs)
+        {
+            clear();
+            Base::copy_assign_from(rhs, rhs.max_size());
+            last_byte_bit_fill_ = (size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
+        }
         return *this;
     }
 
@@ -1978,8 +1983,13 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        if (this != &rhs)
+        {
+            clear();
+            Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+            last_byte_bit_fill_     = (size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
+            rhs.last_byte_bit_fill_ = (rhs.size_ > 0) ? rhs.last_byte_bit_fill_ : Storage{0};
+        }
         return *this;
     }
 
-- 
2.43.0


From 0a13587f174f9a7558c64c65f467995c819bdc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:41 +0000
Subject: [PATCH 09/30] fix: enforce the maximum size of boolean
 VariableLengthArray when growing

The maximum is in bits but the base class counts bytes, so arrays could grow past it.
---
 include/cetl/variable_length_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 9f28505..876d8f3 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2463,7 +2463,8 @@ private:
             return size_bits() < max_size();
         }
 
-        return Base::grow(max_size());
+        // the base class counts bytes.
+        return (size_bits() < max_size()) && Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From d4bdbd960a2d71cbded2723066c9bd05863805af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:41 +0000
Subject: [PATCH 10/30] fix: do not write past the storage when a boolean
 VariableLengthArray cannot grow

---
 include/cetl/variable_length_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 876d8f3..0b893d8 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2400,6 +2400,11 @@ public:
             if (byte_sized > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+                if (byte_sized > capacity_)
+                {
+                    // Out of memory with exceptions disabled. There is no room for the new bits.
+                    return;
+                }
             }
             if (byte_sized == 0)
             {
-- 
2.43.0


From f06407de1c93bd3609ad45bf65e38a1a278da35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:00 +0000
Subject: [PATCH 11/30] fix: keep the allocation of a buffer memory resource
 when it cannot be resized

A failed reallocation forgot that the internal buffer was in use, so the next
allocation handed out the same memory again. A reallocation that moved the
allocation to another offset also left the contents behind.
---
 .../pmr/buffer_memory_resource_delegate.hpp   | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..8254201 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <cstring>
 #include <limits>
 #include <memory>  // for std::align
 
@@ -105,13 +106,11 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         (void) upstream;
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(old_object_count, new_object_count, new_align);
         }
         return result;
     }
@@ -124,12 +123,10 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = reallocate_internal_buffer(old_object_count, new_object_count, new_align);
         }
         else
         {
@@ -252,6 +249,22 @@ private:
         return result;
     }
 
+    /// Resizes the allocation that occupies the internal buffer. On failure the allocation remains as it was.
+    void* reallocate_internal_buffer(std::size_t old_size_bytes, std::size_t new_size_bytes, std::size_t new_align)
+    {
+        void* const result = allocate_internal_buffer(new_size_bytes, new_align);
+        if (nullptr != result)
+        {
+            if ((nullptr != in_use_) && (result != in_use_))
+            {
+                // A different alignment may place the allocation at another offset within the buffer.
+                std::memmove(result, in_use_, std::min(old_size_bytes, new_size_bytes));
+            }
+            in_use_ = result;
+        }
+        return result;
+    }
+
     UpstreamMemoryResourceType* upstream_;
     void*                       buffer_;
     const std::size_t           buffer_size_bytes_;
-- 
2.43.0


From 7fe89b31df5b94df37bbd8a2fb8cf578fecf22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:11 +0000
Subject: [PATCH 12/30] fix: reject oversized requests and align control blocks
 in monotonic_buffer_resource

Computing the size of the next buffer could wrap around, which made a request
that cannot be satisfied succeed with a small block or loop until the upstream
resource was exhausted. The control structure was also constructed in memory
requested with the caller's alignment, which may be too small for it.
---
 include/cetl/pf17/memory_resource.hpp | 43 ++++++++++++++++++---------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..b514d86 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -681,29 +681,44 @@ protected:
     {
         void* result = do_allocate_from_current_buffer(size_bytes, alignment);
 
-        const std::size_t max_size_v = max_size();
-
-        while (nullptr == result)
+        if (nullptr == result)
         {
+            // The control structure is placed at the start of the memory obtained from upstream.
+            const std::size_t block_align = std::max(alignment, alignof(BufferControl));
+
+            // The largest buffer that, together with its control structure, has a representable size.
+            constexpr std::size_t buffer_size_limit = std::numeric_limits<std::size_t>::max() - sizeof(BufferControl);
+            if ((block_align > buffer_size_limit) || (size_bytes > (buffer_size_limit - block_align)))
+            {
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#else
+                return nullptr;
+#endif
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
+            const std::size_t required_size = size_bytes + block_align;
             const std::size_t grow_from_size =
-                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
+                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, required_size});
 
             // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            const std::size_t growth =
+                std::min(grow_from_size / 2U, std::numeric_limits<std::size_t>::max() - grow_from_size);
+            const std::size_t next_buffer_size =
+                std::max(required_size, std::min({max_size(), buffer_size_limit, grow_from_size + growth}));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
-            if (nullptr == raw)
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, block_align);
+            if (nullptr != raw)
             {
-                // out-of-memory with no exceptions.
-                break;
-            }
-            void* buffer = &static_cast<BufferControl*>(raw)[1];
-            current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                void* buffer = &static_cast<BufferControl*>(raw)[1];
+                current_buffer_ =
+                    new (raw) BufferControl{buffer, next_buffer_size, block_align, next_buffer_size, current_buffer_};
 
-            result = do_allocate_from_current_buffer(size_bytes, alignment);
+                result = do_allocate_from_current_buffer(size_bytes, alignment);
+            }
+            // else, out-of-memory with no exceptions.
         }
         return result;
     }
-- 
2.43.0


From b601707a06f06c3ca3696d8b891e26979af1625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:03 +0000
Subject: [PATCH 13/30] fix: throw when MaxAlignNewDeleteResource runs out of
 memory

The failure of malloc was returned as a null pointer, which callers of
memory_resource::allocate do not expect when exceptions are enabled.
---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..c45de5a 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if ((nullptr == result) && (size_bytes > 0))
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From 5a1935d152b06d892de68447fcedb9f9167ed553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:03 +0000
Subject: [PATCH 14/30] fix: refuse over-aligned reallocation in
 MaxAlignNewDeleteResource

Memory from realloc is aligned for fundamental types only, as allocate already
takes into account.
---
 include/cetl/pf17/sys/memory_resource.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index c45de5a..581b7d9 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -67,7 +67,10 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t))
+        {
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From bf9b8eebe9ff40ccb6a23c9532491dc8f2848538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 15/30] fix: let polymorphic_allocator move-construct pairs
 from pairs

A misspelt parameter type made the overload unusable, so the contents of an
rvalue pair were copied, and pairs of move-only types could not be used.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index b514d86..9e7efa6 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -569,7 +569,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From f503265a62f4495a6464810ad538db4bb00264f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 16/30] fix: do not leave dangling references in the arguments
 of allocator-aware pair members

Arguments held by value in the tuples of a piecewise construction were moved
into a temporary tuple that was gone when the pair's members were constructed.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 9e7efa6..fabf23b 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -405,7 +405,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::move(pmArgs));
+        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::tuple<PTArgsT&&...>(std::move(pmArgs)));
     }
 
     template <typename PairType, typename... PTArgsT>
@@ -414,7 +414,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::move(pmArgs), std::make_tuple(*this));
+        return std::tuple_cat(std::tuple<PTArgsT&&...>(std::move(pmArgs)), std::make_tuple(*this));
     }
 
     template <typename U, typename... UArgsT>
-- 
2.43.0


From a23376fed396da49a6e43fc06312d6f0df7474f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 17/30] fix: refuse reallocation of object counts whose size
 overflows

polymorphic_allocator::reallocate passed the wrapped size on, and reported the
resulting smaller block as if it could hold all of the objects.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index fabf23b..00a3ebf 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -492,6 +492,10 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From 7b774a166b5fced174c0402380adbfe98b47d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 18/30] fix: keep the resource of a MemoryResourceDeleter that
 is moved onto itself

Moving a smart pointer onto itself made its deleter forget the memory resource,
so that the memory was never released.
---
 include/cetl/pmr/memory.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..de0bafb 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -115,8 +115,11 @@ private:
     void swap(MemoryResourceDeleter&& rhs) noexcept
     {
         CETL_DEBUG_ASSERT(nullptr != rhs.data_.mem_resource, "Moving from resource deleter with null memory resource.");
-        data_.mem_resource = nullptr;
-        std::swap(data_, rhs.data_);
+        if (this != &rhs)
+        {
+            data_.mem_resource = nullptr;
+            std::swap(data_, rhs.data_);
+        }
     }
 
     MemoryResourceData data_;
-- 
2.43.0


From 677877f3e75aa7ebde175427a7565008b5b8eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 19/30] fix: do not destroy an object whose constructor threw
 in Factory::make_unique

The memory was owned by a smart pointer while the object was constructed, and
its deleter ran the destructor of the object that had never come to life.
---
 include/cetl/pmr/memory.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index de0bafb..88e741f 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -238,12 +238,25 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        auto* const object = alloc.allocate(1);
+        if (nullptr != object)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+#if defined(__cpp_exceptions)
+            try
+            {
+                alloc.construct(object, std::forward<Args>(args)...);
+            } catch (...)
+            {
+                // There is no object to destroy, only memory to return.
+                alloc.deallocate(object, 1);
+                throw;
+            }
+#else
+            alloc.construct(object, std::forward<Args>(args)...);
+#endif
         }
+        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
+            p{object, typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
         return p;
     }
 };
-- 
2.43.0


From 277654e87a785817ae7ddbdf0e1c718e65c1373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:32 +0000
Subject: [PATCH 20/30] fix: let exceptions from memory_resource::reallocate
 reach the caller

A resource may report a failed reallocation by throwing std::bad_alloc, which
terminated the program because the helper that forwards the call was noexcept.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 00a3ebf..8f441bc 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -276,7 +276,7 @@ private:
                     void*       ptr,
                     std::size_t old_size_bytes,
                     std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+                    std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 513bfdfd2acd76b205d28123b9c19682a896ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:06 +0000
Subject: [PATCH 21/30] fix: copying and moving an unbounded_variant that is
 valueless by exception

Such a variant has a value size but no handlers, so copying, moving or swapping
it called a null copier or mover. It is now treated as having no value.
---
 include/cetl/unbounded_variant.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..9e67446 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -128,13 +128,13 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return inplace_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src) noexcept
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value) noexcept
     {
         CETL_DEBUG_ASSERT(0UL == value_size_, "This object is expected to be a brand new (or reset) one.");
 
         value_size_ = src.value_size_;
 
-        return value_size_ > 0UL;
+        return src_has_value;
     }
 
     CETL_NODISCARD bool move_raw_storage_from(base_storage& src) noexcept
@@ -255,7 +255,7 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -263,9 +263,10 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         mem_res_ = src.get_memory_resource();
 
         // We don't allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
             // Later we don't need to call copy-ctor for the valueless variant.
+            value_size_ = src.value_size_;
             return false;
         }
 
@@ -417,7 +418,7 @@ struct base_storage
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -425,9 +426,10 @@ struct base_storage
         mem_res_ = src.get_memory_resource();
 
         // We don't even try to allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
             // Later we don't need to call copy-ctor for the valueless variant.
+            value_size_ = src.value_size_;
             return false;
         }
 
@@ -903,7 +905,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (base::copy_raw_storage_from(src, src.has_value()))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -965,6 +967,7 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
 
     base_move& operator=(base_move&& other) noexcept
     {
+        base::reset();
         move_from(other);
         return *this;
     }
@@ -991,7 +994,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        if (base::move_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
-- 
2.43.0


From d69d0330a4bbf4d08be01711acd7dd3fef22b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:06 +0000
Subject: [PATCH 22/30] fix: return unbounded_variant memory when construction
 of the value throws

The buffer was leaked when the exception left a constructor, and was returned to
the wrong memory resource when such a variant was swapped.
---
 include/cetl/unbounded_variant.hpp | 56 +++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 9e67446..08defc5 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -146,6 +146,11 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return value_size_ > 0UL;
     }
 
+    void release_raw_storage() noexcept
+    {
+        // There is nothing to release for the in-place storage.
+    }
+
     void reset() noexcept
     {
         value_size_ = 0UL;
@@ -300,16 +305,24 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return false;
     }
 
-    void reset() noexcept
+    /// @brief Gives allocated buffer (if any) back to the memory resource.
+    ///
+    /// Value size stays as is, so without handlers this object will be in the valueless by exception state.
+    ///
+    void release_raw_storage() noexcept
     {
-        CETL_DEBUG_ASSERT((nullptr == allocated_buffer_) || (0UL != value_size_), "");
-
         if (nullptr != allocated_buffer_)
         {
             get_memory_resource()->deallocate(allocated_buffer_, value_size_, Alignment);
             allocated_buffer_ = nullptr;
         }
+    }
 
+    void reset() noexcept
+    {
+        CETL_DEBUG_ASSERT((nullptr == allocated_buffer_) || (0UL != value_size_), "");
+
+        release_raw_storage();
         value_size_ = 0UL;
     }
 
@@ -462,14 +475,22 @@ struct base_storage
         return (value_size_ > 0UL) && (nullptr == allocated_buffer_);
     }
 
-    void reset() noexcept
+    /// @brief Gives allocated buffer (if any) back to the memory resource.
+    ///
+    /// Value size stays as is, so without handlers this object will be in the valueless by exception state.
+    ///
+    void release_raw_storage() noexcept
     {
         if (nullptr != allocated_buffer_)
         {
             get_memory_resource()->deallocate(allocated_buffer_, value_size_, Alignment);
             allocated_buffer_ = nullptr;
         }
+    }
 
+    void reset() noexcept
+    {
+        release_raw_storage();
         value_size_ = 0UL;
     }
 
@@ -539,6 +560,29 @@ struct base_access : base_storage<Pmr, Footprint, Alignment>
         return (base::get_value_size() > 0UL) && (nullptr == value_destroyer_);
     }
 
+    /// Gives raw storage back in case no value ends up there (f.e. b/c construction of the value has thrown).
+    ///
+    struct raw_storage_guard final
+    {
+        explicit raw_storage_guard(base_access& access) noexcept
+            : access_{access}
+        {
+        }
+        raw_storage_guard(const raw_storage_guard&)            = delete;
+        raw_storage_guard& operator=(const raw_storage_guard&) = delete;
+
+        ~raw_storage_guard()
+        {
+            if (!access_.has_value())
+            {
+                access_.release_raw_storage();
+            }
+        }
+
+    private:
+        base_access& access_;
+    };
+
     template <typename Tp>
     void make_handlers() noexcept
     {
@@ -909,6 +953,8 @@ private:
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
+            const typename base::raw_storage_guard guard{*this};
+
             src.value_copier_(src.get_raw_storage(), base::get_raw_storage());
 
             base::copy_handlers_from(src);
@@ -1397,6 +1443,8 @@ private:
             return nullptr;
         }
 
+        const typename base::raw_storage_guard guard{*this};
+
         auto* ptr = new (raw_storage) Tp(std::forward<Args>(args)...);
 
         base::template make_handlers<Tp>();
-- 
2.43.0


From b256a9eaa83a93551f11cf4e3c37e2857d20616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:21 +0000
Subject: [PATCH 23/30] fix: keep function consistent when storing a target
 throws

The cached handler pointer still referred to the destroyed target, so the function
did not recognize itself as empty.
---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..b5a2a28 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        // The assignment below may throw, leaving this function without a target.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // The assignment below may throw, leaving this function without a target.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From 0ddfe615f4c893b517bda64637afe7f693e63c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:49 +0000
Subject: [PATCH 24/30] fix: allow implicit construction and assignment of
 optional from an lvalue of its own type

For scalars 'optional<int> o; int x = 0; o = x;' did not compile because an lvalue
cannot be bound to T&&, which made the converting constructor explicit.
---
 include/cetl/pf17/optional.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..e0aacbc 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -301,6 +301,10 @@ constexpr bool convertible = std::is_constructible<T, F&>::value ||         //
                              std::is_convertible<const F&, T&&>::value ||   //
                              std::is_convertible<F&&, T&&>::value ||        //
                              std::is_convertible<const F&&, T&&>::value;
+/// True if F is implicitly convertible to T. See the caveat above; T&& alone is not enough because an lvalue
+/// of a type that is reference-related to T cannot be bound to it.
+template <typename F, typename T>
+constexpr bool implicitly_convertible = std::is_convertible<F, T>::value || std::is_convertible<F, T&&>::value;
 /// True if T is assignable from const F& or F&&.
 template <typename T, typename F>
 constexpr bool assignable = std::is_assignable<T, F&>::value ||        //
@@ -322,12 +326,12 @@ struct is_optional<optional<T>> : std::true_type
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
                               std::is_constructible<T, const U&>::value &&                //
-                              (std::is_convertible<const U&, T&&>::value != Explicit) &&  //
+                              (implicitly_convertible<const U&, T> != Explicit) &&        //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
                               std::is_constructible<T, U&&>::value &&                //
-                              (std::is_convertible<U&&, T&&>::value != Explicit) &&  //
+                              (implicitly_convertible<U&&, T> != Explicit) &&        //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
@@ -335,7 +339,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    (implicitly_convertible<U&&, T> != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From e91a3d0c9fd3cc055f92a1cca5ad6f237edf4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:56 +0000
Subject: [PATCH 25/30] fix: let exceptions of the value type leave optional's
 copy and move operations

The intermediate bases declared their defaulted operations noexcept, so a throwing
copy or move of the contained value ended in std::terminate.
---
 include/cetl/pf17/optional.hpp | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index e0aacbc..592a8fa 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -172,10 +172,10 @@ struct base_copy_construction<T, false> : base_destruction<T>
         : base_destruction<T>(copy_tag{}, other)
     {
     }
-    constexpr base_copy_construction(base_copy_construction&&) noexcept                 = default;
-    constexpr base_copy_construction& operator=(const base_copy_construction&) noexcept = default;
-    constexpr base_copy_construction& operator=(base_copy_construction&&) noexcept      = default;
-    ~base_copy_construction() noexcept                                                  = default;
+    constexpr base_copy_construction(base_copy_construction&&)                 = default;
+    constexpr base_copy_construction& operator=(const base_copy_construction&) = default;
+    constexpr base_copy_construction& operator=(base_copy_construction&&)      = default;
+    ~base_copy_construction() noexcept                                         = default;
 };
 
 /// MOVE CONSTRUCTION POLICY
@@ -192,16 +192,16 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
     {
     }
-    constexpr base_move_construction& operator=(const base_move_construction&) noexcept = default;
-    constexpr base_move_construction& operator=(base_move_construction&&) noexcept      = default;
-    ~base_move_construction() noexcept                                                  = default;
+    constexpr base_move_construction& operator=(const base_move_construction&) = default;
+    constexpr base_move_construction& operator=(base_move_construction&&)      = default;
+    ~base_move_construction() noexcept                                         = default;
 };
 
 /// COPY ASSIGNMENT POLICY
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -242,8 +242,8 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         return *this;
     }
-    constexpr base_copy_assignment& operator=(base_copy_assignment&&) noexcept = default;
-    ~base_copy_assignment() noexcept                                           = default;
+    constexpr base_copy_assignment& operator=(base_copy_assignment&&) = default;
+    ~base_copy_assignment() noexcept                                  = default;
 };
 
 /// MOVE ASSIGNMENT POLICY
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
@@ -324,14 +324,14 @@ struct is_optional<optional<T>> : std::true_type
 /// so we use std::is_convertible<F, T&&> instead.
 /// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
-                              std::is_constructible<T, const U&>::value &&                //
-                              (implicitly_convertible<const U&, T> != Explicit) &&        //
+constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&      //
+                              std::is_constructible<T, const U&>::value &&          //
+                              (implicitly_convertible<const U&, T> != Explicit) &&  //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
-                              std::is_constructible<T, U&&>::value &&                //
-                              (implicitly_convertible<U&&, T> != Explicit) &&        //
+constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&  //
+                              std::is_constructible<T, U&&>::value &&           //
+                              (implicitly_convertible<U&&, T> != Explicit) &&   //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
-- 
2.43.0


From f6d609489b93b81af7749e9b32ba86b20ab5d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:42 +0000
Subject: [PATCH 26/30] fix: pass references returned by visitors through visit

---
 include/cetl/pf17/variant.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..c9ff43a 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,19 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The common result type of several invocations. If they all agree, the result is passed on unchanged, even if it is a
+/// reference; otherwise, it is converted to the type that is common to all of them.
+template <typename, typename... Rs>
+struct common_result : std::common_type<Rs...>
+{};
+template <typename R, typename... Rs>
+struct common_result<std::enable_if_t<conjunction_v<std::is_same<R, Rs>...>>, R, Rs...>
+{
+    using type = R;
+};
+template <typename... Rs>
+using common_result_t = typename common_result<void, Rs...>::type;
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +91,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = common_result_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                std::forward<Args>(ar)...))...>;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +765,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +778,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From 9e468d63633241e918fd592b9b65d830ebd9a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:32 +0000
Subject: [PATCH 27/30] fix: find an empty string at the end of a string_view

---
 include/cetl/pf17/string_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..9554996 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -332,6 +332,10 @@ public:
         {
             return npos;
         }
+        if (sv.empty())
+        {
+            return pos;
+        }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
-- 
2.43.0


From 0308c0e63a91c09b5b8d002901f806b5e1220ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:48 +0000
Subject: [PATCH 28/30] fix: pad string_view output on the side the stream asks
 for

---
 include/cetl/pf17/string_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index 9554996..8065c4a 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -362,10 +362,10 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left =
+                    (os.flags() & std::basic_ios<CharT, Traits>::adjustfield) == std::basic_ios<CharT, Traits>::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
-- 
2.43.0


From e11d9716b26594d65ce38f1eb12694ac7a0d8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:02 +0000
Subject: [PATCH 29/30] fix: check the selected alternative in variant's
 converting operations

---
 include/cetl/pf17/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index c9ff43a..70a89fb 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1092,8 +1092,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From e6abd499898ea4f598945c26fe5d5ced53b764e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:07 +0000
Subject: [PATCH 30/30] fix: compare optionals with the operator asked for

---
 include/cetl/pf17/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 592a8fa..07aaba9 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -680,7 +680,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -694,21 +694,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -807,7 +807,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0

