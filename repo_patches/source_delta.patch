From ae6afcb98256c061373a447e4dea002a7839ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 01/18] fix: rinsert(n) at the beginning exposes uninitialized
 items when a copy throws

---
 include/boost/circular_buffer/base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..eeda926 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2938,9 +2938,8 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (p = sub(m_first, construct); ii < construct; ++ii, increment(p))
+                    destroy_item(p);
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From ee45718da4ed1a421cba28167dee822061dc5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 02/18] fix: constructor (capacity, n, item) releases its
 buffer with a wrong size when a copy throws

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index eeda926..8048157 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From 5fb6787902c11219800a4eba756f474b1691c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 03/18] fix: constructor (capacity, input iterators) leaks its
 buffer and items when it throws

---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 8048157..4c803b1 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From da4ea8f881ed74d96fa839f7126acd50327814bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 04/18] fix: is_linearized() is false for some empty buffers

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4c803b1..2a13800 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -708,7 +708,7 @@ public:
              Constant (in the size of the <code>circular_buffer</code>).
         \sa <code>linearize()</code>, <code>array_one()</code>, <code>array_two()</code>
     */
-    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff; }
+    bool is_linearized() const BOOST_NOEXCEPT { return empty() || m_first < m_last || m_last == m_buff; }
 
     //! Rotate elements in the <code>circular_buffer</code>.
     /*!
-- 
2.43.0


From d45df6d6f8b51cea159165d858179946def93e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 05/18] fix: space optimized insert/rinsert of a range read
 single-pass input twice

---
 .../boost/circular_buffer/space_optimized.hpp | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..1a23219 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1631,6 +1631,21 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != begin()) {
+            for (;first != last; ++pos)
+                pos = insert(pos, *first++);
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1645,6 +1660,24 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != end()) {
+            for (;first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos == end())
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From e475a69b54db55907833a31c81ce7677bec4f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 06/18] fix: space optimized set_capacity/rset_capacity change
 the container when an allocation or copy throws

---
 .../boost/circular_buffer/space_optimized.hpp | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 1a23219..53a221c 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,11 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::set_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +293,11 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::rset_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1523,19 +1521,18 @@ private:
 // Helper methods
 
     /*! INTERNAL ONLY */
-    void adjust_min_capacity() {
-        if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-            circular_buffer<T, Alloc>::set_capacity(m_capacity_ctrl.min_capacity());
-        else
-            check_high_capacity();
+    size_type adjusted_capacity(const capacity_type& capacity_ctrl) const {
+        if (capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
+            return capacity_ctrl.min_capacity();
+        return reduced_capacity((std::min)(size(), capacity_ctrl.capacity()), capacity_ctrl);
     }
 
     /*! INTERNAL ONLY */
-    size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
+    static size_type ensure_reserve(size_type new_capacity, size_type buffer_size, const capacity_type& capacity_ctrl) {
         if (buffer_size + new_capacity / 5 >= new_capacity)
             new_capacity *= 2; // ensure at least 20% reserve
-        if (new_capacity > m_capacity_ctrl)
-            return m_capacity_ctrl;
+        if (new_capacity > capacity_ctrl)
+            return capacity_ctrl;
         return new_capacity;
     }
 
@@ -1548,7 +1545,7 @@ private:
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
             circular_buffer<T, Alloc>::set_capacity(
-                ensure_reserve(new_capacity, new_size));
+                ensure_reserve(new_capacity, new_size, m_capacity_ctrl));
         }
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
@@ -1556,17 +1553,21 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void check_high_capacity() {
+    size_type reduced_capacity(size_type buffer_size, const capacity_type& capacity_ctrl) const {
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
-        while (new_capacity / 3 >= size()) { // (new_capacity / 3) -> avoid oscillations
+        while (new_capacity / 3 >= buffer_size) { // (new_capacity / 3) -> avoid oscillations
             new_capacity /= 2;
-            if (new_capacity <= m_capacity_ctrl.min_capacity()) {
-                new_capacity = m_capacity_ctrl.min_capacity();
+            if (new_capacity <= capacity_ctrl.min_capacity()) {
+                new_capacity = capacity_ctrl.min_capacity();
                 break;
             }
         }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        return ensure_reserve(new_capacity, buffer_size, capacity_ctrl);
+    }
+
+    /*! INTERNAL ONLY */
+    void check_high_capacity() {
+        circular_buffer<T, Alloc>::set_capacity(reduced_capacity(size(), m_capacity_ctrl));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 20af8f99a6672aa26a5e75a998457efddcaaf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 07/18] fix: space optimized copy assignment loses the content
 when a copy throws

---
 include/boost/circular_buffer/space_optimized.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 53a221c..cd766f5 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -561,8 +561,9 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
-        m_capacity_ctrl = cb.m_capacity_ctrl;
+        circular_buffer_space_optimized<T, Alloc> tmp(cb.begin(), cb.end(), get_allocator());
+        tmp.m_capacity_ctrl = cb.m_capacity_ctrl;
+        tmp.swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 8111b65f98288aa2366cb2c7032bdb50aeeef6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 08/18] fix: space optimized assign(capacity, range) breaks
 size() <= capacity() when it throws, and allocates more than documented

---
 .../boost/circular_buffer/space_optimized.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index cd766f5..4d7d740 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -506,8 +506,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(first, is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -723,8 +722,10 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
+       circular_buffer<T, Alloc>::assign(
+           init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()), first, last);
        m_capacity_ctrl = capacity_ctrl;
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       reduce_capacity(first, is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
@@ -1574,6 +1575,17 @@ private:
 #endif
     }
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_capacity(const IntegralType&, const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const Iterator&, const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     void reduce_capacity(const true_type&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
-- 
2.43.0


From 32dcb64a6dd591c86a1ca23cc73de21945f15cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 09/18] fix: space optimized insert/rinsert of a huge number of
 items never returns

---
 include/boost/circular_buffer/space_optimized.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 4d7d740..8e3944c 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1531,8 +1531,11 @@ private:
 
     /*! INTERNAL ONLY */
     static size_type ensure_reserve(size_type new_capacity, size_type buffer_size, const capacity_type& capacity_ctrl) {
-        if (buffer_size + new_capacity / 5 >= new_capacity)
+        if (buffer_size + new_capacity / 5 >= new_capacity) {
+            if (new_capacity > capacity_ctrl.capacity() / 2) // avoid overflow
+                return capacity_ctrl;
             new_capacity *= 2; // ensure at least 20% reserve
+        }
         if (new_capacity > capacity_ctrl)
             return capacity_ctrl;
         return new_capacity;
@@ -1540,12 +1543,17 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
             if (new_capacity == 0)
                 new_capacity = 1;
-            for (; new_size > new_capacity; new_capacity *= 2) {}
+            for (; new_size > new_capacity; new_capacity *= 2) {
+                if (new_capacity > m_capacity_ctrl.capacity() / 2) { // avoid overflow
+                    new_capacity = m_capacity_ctrl.capacity();
+                    break;
+                }
+            }
             circular_buffer<T, Alloc>::set_capacity(
                 ensure_reserve(new_capacity, new_size, m_capacity_ctrl));
         }
-- 
2.43.0


From eb9ab483d526bb33a12e2d6f1dcae9b59d3a44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 10/18] fix: space optimized push_back/push_front of an own
 element read released memory when growing

---
 .../boost/circular_buffer/space_optimized.hpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 8e3944c..59eecbc 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -777,8 +777,14 @@ public:
             <code>pop_front()</code>
     */
     void push_back(param_value_type item) {
-        check_low_capacity();
-        circular_buffer<T, Alloc>::push_back(item);
+        if (size() == circular_buffer<T, Alloc>::capacity() && !full()) {
+            value_type tmp(item); // the item may be stored in the buffer about to be replaced
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_back(boost::move(tmp));
+        } else {
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_back(item);
+        }
     }
 
     //! Insert a new element at the end of the space optimized circular buffer.
@@ -851,8 +857,14 @@ public:
             <code>pop_front()</code>
     */
     void push_front(param_value_type item) {
-        check_low_capacity();
-        circular_buffer<T, Alloc>::push_front(item);
+        if (size() == circular_buffer<T, Alloc>::capacity() && !full()) {
+            value_type tmp(item); // the item may be stored in the buffer about to be replaced
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_front(boost::move(tmp));
+        } else {
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_front(item);
+        }
     }
 
     //! Insert a new element at the beginning of the space optimized circular buffer.
-- 
2.43.0


From f8ded4ef472490e9c605279d9e268df085f03e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 11/18] fix: push_back(), push_front(), insert(pos) and
 rinsert(pos) add indeterminate values of scalar types

The default item was declared without an initializer, so for int (or any other
scalar) an uninitialized value was read and inserted. The documentation asks for
value_type(), which is zero.
---
 include/boost/circular_buffer/base.hpp    | 16 ++++++++--------
 include/boost/circular_buffer/details.hpp | 10 ++++++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 2a13800..ad8fdaf 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1515,8 +1515,8 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_back() {
-        value_type temp;
-        push_back(boost::move(temp));
+        cb_details::default_item<value_type> temp;
+        push_back(boost::move(temp.m_item));
     }
 
     //! Insert a new element at the beginning of the <code>circular_buffer</code>.
@@ -1579,8 +1579,8 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_front() {
-        value_type temp;
-        push_front(boost::move(temp));
+        cb_details::default_item<value_type> temp;
+        push_front(boost::move(temp.m_item));
     }
 
     //! Remove the last element from the <code>circular_buffer</code>.
@@ -1738,8 +1738,8 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos) {
-        value_type temp;
-        return insert(pos, boost::move(temp));
+        cb_details::default_item<value_type> temp;
+        return insert(pos, boost::move(temp.m_item));
     }
 
     //! Insert <code>n</code> copies of the <code>item</code> at the specified position.
@@ -1991,8 +1991,8 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos) {
-        value_type temp;
-        return rinsert(pos, boost::move(temp));
+        cb_details::default_item<value_type> temp;
+        return rinsert(pos, boost::move(temp.m_item));
     }
 
     //! Insert <code>n</code> copies of the <code>item</code> before the specified position.
diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..0318c58 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -82,6 +82,16 @@ struct nonconst_traits {
     typedef nonconst_traits<Alloc> nonconst_self;
 };
 
+/*!
+    \struct default_item
+    \brief Holder of a default item (scalars are zero-initialized).
+*/
+template <class Value>
+struct default_item {
+    Value m_item;
+    default_item() : m_item() {}
+};
+
 /*!
     \struct iterator_wrapper
     \brief Helper iterator dereference wrapper.
-- 
2.43.0


From e30f3cdb7ed17378348de38ca499a4b6feb11dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 12/18] fix: decrementing begin() of an empty circular_buffer
 is not reported by the debug support

begin() of an empty buffer is represented as end(), so the check against m_first
did not notice it and the iterator ended up pointing to a nonexistent element.
---
 include/boost/circular_buffer/details.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 0318c58..fefcaae 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -325,6 +325,7 @@ struct iterator
     iterator& operator -- () {
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(!m_buff->empty());        // check for iterator pointing to begin() of an empty buffer
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
-- 
2.43.0


From 5d3e66462c6874a93d52055bee8855174c11faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 13/18] fix: moving an uninitialized iterator crashes instead
 of being reported by the debug support

An uninitialized iterator has neither a buffer nor a registry, so is_valid(m_buff)
holds for it and operators --, += and -= dereferenced the null buffer pointer.
---
 include/boost/circular_buffer/details.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index fefcaae..a70b239 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -323,6 +323,7 @@ struct iterator
 
     //! Decrement operator (prefix).
     iterator& operator -- () {
+        BOOST_CB_ASSERT(m_buff != 0);             // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
         BOOST_CB_ASSERT(!m_buff->empty());        // check for iterator pointing to begin() of an empty buffer
@@ -341,6 +342,7 @@ struct iterator
 
     //! Iterator addition.
     iterator& operator += (difference_type n) {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
             BOOST_CB_ASSERT(m_buff->end() - *this >= n); // check for too large n
@@ -358,6 +360,7 @@ struct iterator
 
     //! Iterator subtraction.
     iterator& operator -= (difference_type n) {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
             BOOST_CB_ASSERT(*this - m_buff->begin() >= n); // check for too large n
-- 
2.43.0


From 7c48b601553af7bc9794c5c5c962144b571fd9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 14/18] fix: space optimized resize/rresize beyond max_size()
 fail but leave capacity() above max_size()

---
 include/boost/circular_buffer/space_optimized.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 59eecbc..0598dec 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -259,8 +259,10 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
+            if (new_size > m_capacity_ctrl) {
+                circular_buffer<T, Alloc>::set_capacity(new_size);
                 m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            }
             insert(end(), new_size - size(), item);
         } else {
             iterator e = end();
@@ -329,8 +331,10 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
+            if (new_size > m_capacity_ctrl) {
+                circular_buffer<T, Alloc>::set_capacity(new_size);
                 m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            }
             rinsert(begin(), new_size - size(), item);
         } else {
             rerase(begin(), end() - new_size);
-- 
2.43.0


From dfa1464cab92d130c5292ad345e68d0264dc032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 15/18] fix: rotate() does not compile with allocators whose
 pointer is not a raw pointer (Boost.Interprocess)

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index ad8fdaf..861f381 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -741,7 +741,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = add(m_first, new_begin - begin());
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From 8674a1362c84dc63dace14136d92378a8872296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 16/18] fix: report an invalid position passed to the space
 optimized insert/rinsert of an empty single-pass range

---
 include/boost/circular_buffer/space_optimized.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 0598dec..1b37f3a 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1675,6 +1675,7 @@ private:
     /*! INTERNAL ONLY */
     template <class InputIterator>
     void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
         if (!full() || pos != begin()) {
             for (;first != last; ++pos)
                 pos = insert(pos, *first++);
@@ -1704,6 +1705,7 @@ private:
     /*! INTERNAL ONLY */
     template <class InputIterator>
     void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
         if (!full() || pos != end()) {
             for (;first != last; ++pos) {
                 pos = rinsert(pos, *first++);
-- 
2.43.0


From dd3a743a5186eebe4373f6a465ded7a2635e7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 17/18] fix: keep iterators equal to end() valid in
 assign(capacity, first, last) from a single-pass range

With the debug support enabled, a change of the capacity went through swap(), which invalidates all iterators, although the
documentation excludes iterators equal to end().
---
 include/boost/circular_buffer/base.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 861f381..eea7e66 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2710,7 +2710,15 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            // swap() would invalidate the iterators equal to end(), too
+            adl_move_swap(m_buff, tmp.m_buff);
+            adl_move_swap(m_end, tmp.m_end);
+            adl_move_swap(m_first, tmp.m_first);
+            adl_move_swap(m_last, tmp.m_last);
+            adl_move_swap(m_size, tmp.m_size);
+#if BOOST_CB_ENABLE_DEBUG
+            invalidate_iterators_except(end());
+#endif
         }
     }
 
-- 
2.43.0


From 61451ad6553860d41e88a8f3bd079aa49e805c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 18/18] fix: make cbegin() and cend() of
 circular_buffer_space_optimized accessible

---
 include/boost/circular_buffer/space_optimized.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 1b37f3a..7162c97 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -107,6 +107,8 @@ public:<br>
     using circular_buffer<T, Alloc>::get_allocator;
     using circular_buffer<T, Alloc>::begin;
     using circular_buffer<T, Alloc>::end;
+    using circular_buffer<T, Alloc>::cbegin;
+    using circular_buffer<T, Alloc>::cend;
     using circular_buffer<T, Alloc>::rbegin;
     using circular_buffer<T, Alloc>::rend;
     using circular_buffer<T, Alloc>::at;
-- 
2.43.0

