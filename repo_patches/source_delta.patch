From c6d8e9a8474fc5281163eb186d1c9cee49fee268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 01/26] fix: vector keeps only live elements when an insertion
 fails half way

---
 nestl/implementation/vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..470127b 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -722,6 +722,9 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            /// there is a hole at val, so only elements before it can be kept
+            nestl::detail::destroy(val + 1, last + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
@@ -731,6 +734,9 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
 	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
     if (err)
     {
+        /// there is a hole at first, so only elements before it can be kept
+        nestl::detail::destroy(first + 1, last + 1);
+        m_finish = first;
         return end();
     }
 
-- 
2.43.0


From ce37246eab5a07e632b8e9a7d54334edc359c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 02/26] fix: vector insertion of a value which refers to own
 element

---
 nestl/implementation/vector.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 470127b..07232d0 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -3,6 +3,7 @@
 
 #include <nestl/config.hpp>
 
+#include <nestl/alignment.hpp>
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
@@ -704,6 +705,22 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
+    /// args may refer to an element of this vector, so if elements will be relocated,
+    /// then the new value should be constructed before that
+    const bool relocate = (pos != m_finish) || (capacity() == size());
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* bufferEnd = buffer.ptr();
+    nestl::detail::destruction_scoped_guard<value_type*> bufferGuard(buffer.ptr(), bufferEnd);
+    if (relocate)
+    {
+        nestl::class_operations::construct(err, buffer.ptr(), std::forward<Args>(args) ...);
+        if (err)
+        {
+            return end();
+        }
+        ++bufferEnd;
+    }
+
     if (capacity() == size())
     {
         grow(err, capacity() + 1);
@@ -731,7 +748,14 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+    if (relocate)
+    {
+        nestl::class_operations::construct(err, first, std::move(*buffer.ptr()));
+    }
+    else
+    {
+        nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+    }
     if (err)
     {
         /// there is a hole at first, so only elements before it can be kept
-- 
2.43.0


From 37423f654563356f11a39c77c6e60bd67a8e3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 03/26] fix: vector::resize_nothrow with a value which refers
 to own element

---
 nestl/implementation/vector.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 07232d0..35ff40c 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -624,7 +624,23 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    do_resize(err, count, value);
+    if (count <= size())
+    {
+        do_resize(err, count, value);
+        return;
+    }
+
+    /// value may refer to an element of this vector
+    nestl::aligned_buffer<value_type> buffer;
+    nestl::class_operations::construct(err, buffer.ptr(), value);
+    if (err)
+    {
+        return;
+    }
+    value_type* bufferEnd = buffer.ptr() + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> bufferGuard(buffer.ptr(), bufferEnd);
+
+    do_resize(err, count, static_cast<const value_type&>(*buffer.ptr()));
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 94c0f6ab6bf47a1caad991735c3d4de265a904e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 04/26] fix: vector::assign_nothrow keeps the allocator of the
 vector

---
 nestl/implementation/vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 35ff40c..7d92db4 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -312,7 +312,11 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to the old content, so it should be destroyed (by own allocator) at exit
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> storageGuard(m_allocator, m_start, capacity());
+    pointer oldFinish = m_finish;
+    nestl::detail::destruction_scoped_guard<pointer> contentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = nullptr;
 
     assert(empty());
 
@@ -338,7 +342,11 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to the old content, so it should be destroyed (by own allocator) at exit
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> storageGuard(m_allocator, m_start, capacity());
+    pointer oldFinish = m_finish;
+    nestl::detail::destruction_scoped_guard<pointer> contentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = nullptr;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From 5199e0dcdb9749b9a93e92d3c5a486602a75fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 05/26] fix: vector move assignment propagates the allocator

---
 nestl/implementation/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 7d92db4..9ea5f7c 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -673,6 +673,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
+    m_allocator = other.m_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From c0c10fc659f65d0e69cd49f9638dc3591ca56e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 06/26] fix: nestl::allocator reports an error when requested
 size overflows

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From d4bb0f5138f2f48d39e6d7c88d0c42cd79d4edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 07/26] fix: weak_ptr self assignment does not use released
 control block

---
 nestl/implementation/shared_ptr.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..ace9d4e 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -290,17 +290,9 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
-        {
-            m_refcount->weak_release();
-        }
-
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
-        }
+        weak_ptr tmp(other);
+        std::swap(m_ptr, tmp.m_ptr);
+        std::swap(m_refcount, tmp.m_refcount);
 
         return *this;
     }
-- 
2.43.0


From 0737ac4fa8ce7eed7e99d0cd273e13fbece884ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 08/26] fix: weak_ptr move assignment takes the reference away
 from the source

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index ace9d4e..af4c213 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -299,10 +299,9 @@ public:
 
     weak_ptr& operator=(weak_ptr&& other) NESTL_NOEXCEPT_SPEC
     {
-        const weak_ptr tmp(std::move(*this));
-
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
+        weak_ptr tmp(std::move(other));
+        std::swap(m_ptr, tmp.m_ptr);
+        std::swap(m_refcount, tmp.m_refcount);
 
         return *this;
     }
-- 
2.43.0


From 2c2ac3b156bdd1d5aa7450960152325946e212bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 09/26] fix: weak_ptr::lock returns empty pointer when the
 object is already destroyed

---
 nestl/implementation/shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index af4c213..6367e02 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -323,7 +323,7 @@ public:
 
     shared_ptr<T> lock()
     {
-        return shared_ptr<T>(m_ptr, m_refcount);
+        return expired() ? shared_ptr<T>() : shared_ptr<T>(m_ptr, m_refcount);
     }
 
 private:
-- 
2.43.0


From bd7f0f8ebc431320c4acaa35a23d2ebab1842c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 10/26] fix: control block is destroyed once when the value
 holds the last weak reference to itself

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 6367e02..8e40a92 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// destructor of the value may release the last weak reference to this block
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From 8c7cab9a91fcd736c85b96abbbc356b213834efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 11/26] fix: shared_ptr move assignment from a pointer owned by
 the current object

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 8e40a92..490697f 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -431,10 +431,9 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
+    /// other may be owned by current object, so it should be destroyed at exit
+    const shared_ptr tmp(std::move(*this));
+
     m_ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-- 
2.43.0


From 66416cf4f8d1e61dd4fee4afeaee9eac7e83c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 12/26] fix: make_shared_a_nothrow uses given allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 490697f..4a4f023 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -490,12 +490,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 61f6dce4539d5b2d0496cae8a03455226e97fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 13/26] fix: make_shared_a_nothrow destroys control block when
 construction of the value fails

---
 nestl/implementation/shared_ptr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 4a4f023..4e66543 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -510,12 +510,16 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* ptrEnd = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, ptrEnd);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From f27d123012984155e3ea7d8f7eecf201b845eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 14/26] fix: list range insert keeps the order of the range

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..3b1481f 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From 9860b6ad7b6e5d83bd7457d31cc637dc6ef83664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 15/26] fix: list::copy_nothrow from itself

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3b1481f..ee446f8 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 32cbc6eafb9ac29bc2e5f99ea2936af701e83622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 16/26] fix: list splice of a range which already precedes the
 position is a no-op

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index ee446f8..470a2ba 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -136,7 +136,10 @@ struct list_node_base
         NESTL_CHECK_LIST_NODE(first);
         NESTL_CHECK_LIST_NODE(last);
 
-        assert(this != last);
+        if (this == last)
+        {
+            return;
+        }
 
         last->m_prev->m_next = this;
         first->m_prev->m_next = last;
-- 
2.43.0


From 277e7662e109356c76cf711e68891496349b7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 17/26] fix: list::assign_nothrow destroys old content by own
 allocator

---
 nestl/implementation/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 470a2ba..3465e08 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -722,7 +722,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap_data(*this);
 
     while (n > 0)
     {
@@ -742,7 +742,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap_data(*this);
 
     while (first != last)
     {
-- 
2.43.0


From a37e7f763719b9b3bc0599a5cd7e106e15480fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 18/26] fix: list::swap exchanges allocators

---
 nestl/implementation/list.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3465e08..bc091ae 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1067,6 +1067,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1211,10 +1212,10 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
             for(counter = &tmp[0]; counter != fill && !counter->empty(); ++counter)
             {
                 counter->merge(carry, comp);
-                carry.swap(*counter);
+                carry.swap_data(*counter);
             }
 
-            carry.swap(*counter);
+            carry.swap_data(*counter);
             if (counter == fill)
             {
                 ++fill;
@@ -1226,7 +1227,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 4a2874a19c1e11f32844f2937ed27367e8f5f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 19/26] fix: list move assignment takes the other list together
 with its allocator

---
 nestl/implementation/list.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index bc091ae..48fc25b 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -701,7 +701,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1271,6 +1271,8 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
+
+    m_node_allocator = other.m_node_allocator;
     this->swap_data(other);
 }
 
-- 
2.43.0


From bf46abb17a6b2f4c587b51f676f2522d96aa83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 20/26] fix: list::erase of a range returns an iterator

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 48fc25b..76aff70 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -997,7 +997,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 8003455eda6d5ef38d56b9ad9e335c0f141d2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 21/26] fix: list::max_size does not require max_size from
 allocator

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 76aff70..ccefc29 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -892,7 +892,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return (std::numeric_limits<size_type>::max)() / sizeof(node_type);
 }
 
 
-- 
2.43.0


From e42a8a48908d81c3b8f1972827f1f8a94dd511a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:00 +0000
Subject: [PATCH 22/26] fix: has_exceptions::list move assignment

---
 nestl/has_exceptions/list.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..f6ecf1d 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,9 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+
+        return *this;
     }
 
     list(const list& other)
-- 
2.43.0


From 2def1b89fc2cf8a307a71e2c89e114beaeb7590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 23/26] fix: allocator_traits provides
 propagate_on_container_copy_assignment (set::copy_nothrow did not compile)

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..6a6f841 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 908a590ae0723a3ceda860469e87155e7e013873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 24/26] fix: set::max_size does not require max_size from
 allocator

---
 nestl/implementation/detail/red_black_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..cf4ab8e 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1133,7 +1133,7 @@ public:
 
     size_type
     max_size() const NESTL_NOEXCEPT_SPEC
-    { return node_allocator_traits::max_size(m_get_node_allocator()); }
+    { return (std::numeric_limits<size_type>::max)() / sizeof(rb_tree_node<Val>); }
 
     void
     swap(rb_tree& t) NESTL_NOEXCEPT_SPEC;
-- 
2.43.0


From 15e75a33cf9311705f7827b33bc78dd584b2a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 25/26] fix: set::crbegin and set::crend

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..dc0964a 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -253,7 +253,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -274,7 +274,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From acb71dc4dcc85ff524a1d63e208acb07854a4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 26/26] fix: set move assignment (did not compile)

---
 .../implementation/detail/red_black_tree.hpp  | 23 +++++++------------
 nestl/implementation/set.hpp                  | 12 ++--------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index cf4ab8e..eac536d 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,8 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    void
+    m_move_assign(rb_tree& other, std::true_type) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1381,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x, std::true_type) NESTL_NOEXCEPT_SPEC
 {
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index dc0964a..a0c01bd 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,8 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl, typename nestl::allocator_traits<A>::propagate_on_container_move_assignment());
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0

